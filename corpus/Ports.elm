port module Ports exposing (..)

import Json.Decode as Decode exposing (Decoder, (:=))
import Json.Encode as Encode
import Task


port save : Encode.Value -> Cmd msg


port loaded : (Decode.Value -> msg) -> Sub msg


port log : ( String, List String ) -> Cmd msg


type alias Settings msg =
    { onLoad : Result String { user : String, age : Int } -> msg
    , extra : { r | name : String, tags : List (Maybe String) } -> msg
    }


decoder : Decoder { user : String, age : Int }
decoder =
    Decode.map2 (\user age -> { user = user, age = age })
        (Decode.field "user" Decode.string)
        (Decode.field "age" Decode.int)


subscriptions : Settings msg -> a -> Sub msg
subscriptions { onLoad } _ =
    loaded (Decode.decodeValue decoder >> onLoad)


encode { user, age } =
    Encode.object
        [ ( "user", Encode.string user )
        , ( "age", Encode.int age )
        , ( "escaped \"quote\" and \\ slash", Encode.null )
        ]
