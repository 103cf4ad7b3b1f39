module Counter exposing (Model, Msg(..), init, update, view)

{-| A counter that can be embedded.

@docs Model, Msg, init, update, view

-}

import Html exposing (Html, button, div, text)
import Html.Attributes as Attr
import Html.Events exposing (onClick)


-- MODEL


type alias Model =
    { count : Int
    , history : List Int
    , label : Maybe String
    }


init : Maybe String -> ( Model, Cmd Msg )
init label =
    ( { count = 0, history = [], label = label }, Cmd.none )



-- UPDATE


type Msg
    = Increment
    | Decrement
    | Set Int
    | Undo
    | Rename (Maybe String)


update : Msg -> Model -> ( Model, Cmd Msg )
update msg model =
    case msg of
        Increment ->
            ( { model | count = model.count + 1, history = model.count :: model.history }
            , Cmd.none
            )

        Decrement ->
            let
                next =
                    model.count - 1
            in
            ( { model | count = next }, Cmd.none )

        Set n ->
            ( { model
                | count = n
                , history = []
              }
            , Cmd.none
            )

        Undo ->
            case model.history of
                [] ->
                    ( model, Cmd.none )

                last :: rest ->
                    ( { model | count = last, history = rest }, Cmd.none )

        Rename label ->
            { model | label = label } ! []



-- VIEW


view : Model -> Html Msg
view model =
    div [ Attr.class "counter" ]
        [ button [ onClick Decrement ] [ text "-" ]
        , div [] [ text (toString model.count) ]
        , button [ onClick Increment ] [ text "+" ]
        , case model.label of
            Just label ->
                text label

            Nothing ->
                text ""
        ]
