module Nested exposing (deep)


deep a b c =
    if a then
        case b of
            Just x ->
                let
                    y =
                        case x of
                            ( Ok l, Err r ) ->
                                \k ->
                                    if k then
                                        l
                                    else
                                        r

                            ( _, Ok { field } ) ->
                                let
                                    z =
                                        [ field
                                        , case c of
                                            [] ->
                                                0

                                            h :: _ ->
                                                h
                                        , 3
                                        ]
                                in
                                z

                            _ ->
                                always 1

                    w : Int -> Int
                    w n =
                        n
                in
                y (w 1)

            Nothing ->
                deep
                    (not a)
                    (Just
                        ( 1
                        , 2
                        )
                    )
                    { c
                        | x = 1
                        , y =
                            case c of
                                _ ->
                                    2
                    }
    else
        b
