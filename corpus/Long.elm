module Long exposing (main, Shape(Circle, Square, Polygon), Tree(..), area, fold, render)

-- A mix of everything with a bit of length

import Basics exposing (..)
import List.Extra as List exposing (foldl1, zip)
import Svg
import Svg.Attributes exposing (cx, cy, fill, r, viewBox)
import Time exposing (Time, second)


type Shape
    = Circle Float
    | Square Float
    | Polygon (List ( Float, Float ))


type Tree a
    = Leaf
    | Node (Tree a) a (Tree a)


type alias Callback a b msg =
    a -> (b -> msg) -> List a -> ( a, b, c ) -> { a : a, b : b } -> msg


area : Shape -> Float
area shape =
    case shape of
        Circle r ->
            pi * r ^ 2

        Square a ->
            a * a

        Polygon points ->
            let
                pairs =
                    zip points (List.drop 1 points ++ List.take 1 points)

                cross ( ( x1, y1 ), ( x2, y2 ) ) =
                    x1 * y2 - x2 * y1

                total : Float
                total =
                    pairs
                        |> List.map cross
                        -- signed
                        |> List.sum
            in
            abs total / 2


fold : (a -> b -> b) -> b -> Tree a -> b
fold f acc tree =
    case tree of
        Leaf ->
            acc

        Node left x right ->
            fold f (f x (fold f acc left)) right


insert : comparable -> Tree comparable -> Tree comparable
insert x tree =
    case tree of
        Leaf ->
            Node Leaf x Leaf

        (Node l y r) as node ->
            if x == y then
                node
            else if x < y then
                Node (insert x l) y r
            else
                Node l y (insert x r)


flags =
    { title = "Long", size = 12.5, negative = -3, ok = True, nested = { a = [ [], [ 1 ], [ 1, 2 ] ] } }


text3 =
    """
multi "line" text
-- not a comment {- nor this -}
"""


compose =
    List.map ((+) 1 << (*) 2) >> List.filter ((/=) 0) >> (\xs -> List.length xs % 2 == 0)


access =
    List.map .name [ flags.nested, flags.nested ]


tuple3 =
    (,,) 1 2.0 'c'


render model =
    Svg.svg [ viewBox "0 0 10 10" ]
        (List.map
            (\( x, y ) ->
                Svg.circle
                    [ cx (toString x)
                    , cy (toString y)
                    , fill <|
                        if x > y then
                            "red"
                        else
                            "blue"
                    ]
                    []
            )
            model.points
            ++ [ Svg.text "end" ]
        )


main =
    let
        ( a, b ) =
            ( 1, 2 )

        { title, size } =
            flags

        _ =
            Debug.log "start" title

        go n =
            case n of
                0 ->
                    []

                _ ->
                    n :: go (n - 1)
    in
    go a |> List.map toString |> String.join ","
