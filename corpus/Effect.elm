effect module WebSocket where {command = MyCmd, subscription = MySub} exposing
    ( send
    , listen
    , keepAlive
    )

import Dict
import Process
import Task exposing (Task)


-- COMMANDS


type MyCmd msg
    = Send String String


send : String -> String -> Cmd msg
send url message =
    command (Send url message)


cmdMap : (a -> b) -> MyCmd a -> MyCmd b
cmdMap _ (Send url msg) =
    Send url msg


-- HELPERS


sendMessagesHelp : List (MyCmd msg) -> Dict.Dict String Int -> Task x Int
sendMessagesHelp cmds socketsDict =
    case cmds of
        [] ->
            Task.succeed 0

        (Send name msg) :: rest ->
            case Dict.get name socketsDict of
                Just 1 ->
                    sendMessagesHelp rest socketsDict

                Just n ->
                    if n > 10 then
                        Task.succeed n
                    else if n < -10 then
                        Task.succeed -1
                    else
                        Task.succeed (n * 2 + 1)

                _ ->
                    Task.fail "no socket"
