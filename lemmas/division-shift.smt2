; adding 300 units before a division by the unit adds 300 to the quotient (natural numbers)
(set-logic ALL)
(declare-const x Int)
(assert (>= x 0))
(assert (not (= (div (+ x 300000000000) 1000000000) (+ (div x 1000000000) 300))))
(check-sat)
