; quotient and remainder in the trivial cases
(set-logic ALL)
(declare-const a Int)(declare-const b Int)(declare-const q Int)(declare-const r Int)
(assert (and (>= a 0) (> b 0)))
(assert (and (= a (+ (* q b) r)) (<= 0 r) (< r b) (>= q 0)))
(assert (not (and (=> (< a b) (and (= q 0) (= r a))) (=> (= b 1) (and (= q a) (= r 0))) (=> (= a b) (and (= q 1) (= r 0))))))
(check-sat)
