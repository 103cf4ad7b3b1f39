{- License

   -- nested dashes { - and braces }
-}
module Comments exposing (x)

--| not doc
-- "unclosed string
--{- not a block
{-| Doc comment with code:

    x = 1
    y = "it's"

-}


x : Int
x =
    -- before the body
    1 + 2 -- after an operand
        -- on its own line
        + 3



{--}
y =
    f -- c
        a
        -- c
        b


-- the end
