module Text.Parser.Core exposing ((<*>), (<|>), Parser, ParseError(Expected, EndOfInput), andThen, map, oneOf, run)

import Char
import Dict exposing (Dict, empty, insert)
import String


type Parser state a
    = Parser (State state -> Result ParseError ( a, State state ))


type alias State s =
    { input : String, offset : Int, user : s }


type ParseError
    = Expected String Int
    | EndOfInput
    | Nested { at : Int, cause : ParseError } (List ( Int, String ))


infixl 4 <*>
infixr 3 <|>


(<*>) : Parser s (a -> b) -> Parser s a -> Parser s b
(<*>) pf pa =
    andThen (\f -> map f pa) pf


(<|>) : Parser s a -> Parser s a -> Parser s a
(<|>) (Parser p) (Parser q) =
    Parser <|
        \st ->
            case p st of
                Ok x ->
                    Ok x

                Err _ ->
                    q st


map : (a -> b) -> Parser s a -> Parser s b
map f (Parser p) =
    Parser (\st -> Result.map (\( a, rest ) -> ( f a, rest )) (p st))


andThen : (a -> Parser s b) -> Parser s a -> Parser s b
andThen f (Parser p) =
    Parser <|
        \st ->
            p st
                |> Result.andThen
                    (\( a, rest ) ->
                        let
                            (Parser q) =
                                f a
                        in
                        q rest
                    )


oneOf : List (Parser s a) -> Parser s a
oneOf ps =
    case ps of
        [] ->
            Parser (\st -> Err (Expected "one of" st.offset))

        [ p ] ->
            p

        p :: rest ->
            p <|> oneOf rest


isHex c =
    Char.isDigit c || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F') || c == '\x41'


digits : List ( Char, Int )
digits =
    [ ( '0', 0 ), ( '1', 1 ), ( '2', 2 )
    , ( '3', 3 )
    , ( '4', 4 )
    ]


run : Parser () a -> String -> Result ParseError a
run (Parser p) input =
    { input = input, offset = 0, user = () }
        |> p
        |> Result.map Tuple.first
