; quotient and remainder of 2a+c by b, from those of a (mathematical integers; c is a bit)
(set-logic ALL)
(declare-const a Int)(declare-const b Int)(declare-const c Int)
(declare-const q Int)(declare-const r Int)(declare-const q2 Int)(declare-const r2 Int)(declare-const k Int)
(assert (and (>= a 0) (> b 0) (or (= c 0) (= c 1))))
(assert (and (= a (+ (* q b) r)) (<= 0 r) (< r b) (>= q 0)))
(assert (and (= (+ (* 2 a) c) (+ (* q2 b) r2)) (<= 0 r2) (< r2 b) (>= q2 0)))
(assert (= k (ite (>= (+ (* 2 r) c) b) 1 0)))
(assert (not (and (= q2 (+ (* 2 q) k)) (= r2 (- (+ (* 2 r) c) (* k b))) (<= r a) (<= (+ (* 2 r) c) (+ (* 2 a) c)))))
(check-sat)
