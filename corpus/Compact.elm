module Compact exposing (..)
import A
import B.C as D exposing (e,F(..),(+++),G(H, I))
type T = T
type U a = U a | V (U a) {x:Int,y:{ z | w:a}}
type alias W = ()
type alias X a b = {f:a -> b,g:(a,b),h:List (Maybe a)}
f x = x + 1
g x y = if x > y then x else y
h (a,b) {c,d} [e,f] _ 1 "s" 'c' = a
i = let a = 1 in a
j = case 1 of 1 -> 2
k = \a b -> a
l = [1,2,3]
m = {a=1,b={c=2}}
n = {m|a=2}
o = m.b.c
p = (1,2)
q = f <| g 1 <| 2
r = (f)
s = ((f) ((1)))
infix 9 ++++
-- end
