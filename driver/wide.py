"""Programs with more than 65536 operands or names in them, for which the widest instructions are needed.

They are too long to be generated at random, and are run once at the start of the checks they concern."""

FORMS = """a (setq a 7) a (f 3) (funcall u 4) (funcall (lambda () (setq a (+ a 1)) (list a b))) (if (< a 3) 1 2) (vector a b 1) (list a b) (cons a b) (car c) (cdr c)
(set-car c a) (set-cdr c (cons b ())) (= a b) (not t) (+ a b) (- a b) (* a b) (/ b a) (> a b) (< a b) (null? e) (make-string v) (concatenate s s) (substring s i j)
(type-of a) (length v) (get-vector-element v i) (set-vector-element v i a) v (make-vector j a) (symbol-string y) (make-type) (composite-value q) (composite-function q)
(set-composite-value q a) (set-composite-function q u) (funcall q 2) (apply u (list 1)) (apply w a (list 2 3)) (apply w k) (make-instance p a u) (type-of q)
(host-call1 u 5) (emit2 a b) (() (var z a) (setq z (+ z b)) (var n 0) (while (< n j) (setq z (+ z n)) (setq n (+ n 1))) z) (unless t a) (when t b)
(funcall (lambda (x) (funcall (lambda () (setq b (+ b x)) (f b)))) 2) (quote (x y)) 1.5 true "text" (quote zed) -200 70000 (m a) (setq f (lambda (x) (+ x b))) (f 4) (funcall f a) b s c l0"""


def head(prop):
    return "kind=lang\nprop=%s\nseed=0\nvariant=fast\nglobals=g0,g1\nsteps=2000000\nsmall=300000\nheap=300000\nctheap=300000\n--\n" % prop


def far(prop):
    text = "(() (global g0 3) (defmacro m (x) (list (quote +) x (quote j))) (var a 1) (var b 5) (var c (list 1 2)) (var t true) (var e ()) (var v (vector 65 66 67)) (var s \"hello\")"
    text += " (var i 1) (var j 3) (var y (quote sym)) (defun f (x) (+ x 1)) (var u (lambda (x) (setq b (+ b x)) b)) (var w (lambda (x &rest y) (list x y b))) (var k (list 9 8))"
    text += " (var p (make-type)) (var q (make-instance p 4 u)) (var l0 (list \"x\")) (setq g0 (list " + " ".join(["()"] * 65600) + " " + " ".join(FORMS.split()) + "))"
    text += " (emit (length g0)) (while (null? (car g0)) (setq g0 (cdr g0))) (emit g0) (emit a) (emit c) (emit v) (emit b) (emit (f 1)))"
    return head(prop) + "load | " + text + "\nexec\ngc\nload | (() (emit g0) (emit (funcall (get-vector-element (vector 1 (lambda () 5)) 1))))\nexec\n"


def names(prop):
    load = "load | (() (quote (" + " ".join("zz%d" % i for i in range(65600)) + ")) 0)\nexec\n"
    load += "load | (() (global g0 5) (global fresh (quote other)) (defun f (x) (setq fresh x)) (emit fresh) (f 3) (emit fresh) (emit g0) (emit (quote yet-another)) (emit (= (quote zz7) (quote zz7)))"
    load += " (emit (symbol-string (quote zz65599))) (global g1 (lambda (x) (list fresh x (quote later)))) (emit (funcall g1 (quote zz12))) (defmacro m (x) (list (quote quote) (list x (quote in-macro)))) (emit (m zz65598)))\nexec\n"
    return head(prop) + load + "gc\nload | (() (setq fresh (quote later)) (emit (funcall g1 fresh)) (emit (= fresh (quote later))) (emit (= fresh (quote other))))\nexec\n"


def deep(prop):
    """Structures far deeper than any C stack could follow."""
    text = ""
    for wrap, unwrap in (("(cons l ())", "(car l)"), ("(cons 1 l)", "(cdr l)"), ("(vector 1 l)", "(get-vector-element l 1)"), ("(make-instance t l 2)", "(composite-value l)"),
                         ("(() (var x l) (lambda () x))", "(funcall l)"), ("(cons (vector (make-instance t (() (var x l) (lambda () x)) 2)) 3)", "(funcall (composite-value (get-vector-element (car l) 0)))")):
        text += "load | (() (var t (make-type)) (var l 7) (var i 0) (while (< i 20000) (setq l %s) (setq i (+ i 1))) (host-gc) (setq i 0) (while (< i 19999) (setq l %s) (setq i (+ i 1))) (global g0 l) (emit %s))\nexec\ngc\n" % (wrap, unwrap, unwrap)
    return head(prop) + text


def long(prop):
    """Vectors and strings with more than 65536 elements."""
    text = "load | (() (var v (make-vector 70000 66)) (var u (cdr v)) (set-vector-element v 69999 65) (set-vector-element u 69997 67) (emit (length v)) (emit (length u)) (emit (get-vector-element u 69998))"
    text += " (emit (get-vector-element v 69998)) (emit (get-vector-element v 4463)) (host-gc) (var s (make-string v)) (emit (length s)) (var x (concatenate s \"end\")) (emit (length x)) (emit (substring x 69997 70003))"
    text += " (var y (substring x 65535 70001)) (emit (length y)) (emit (substring y 4460 4466)) (var i 0) (while (< i 66000) (setq x (cdr x)) (setq i (+ i 1))) (emit (length x)) (emit (substring x 3996 4003)) (emit (car (cdr x)))"
    text += " (global g0 (lambda () (setq i (+ i 1)) (substring y 4464 4466))) (emit (funcall g0)))\nexec\ngc\n"
    text += "load | (() (emit (funcall g0)) (var l ()) (var i 0) (while (< i 70000) (setq l (cons i l)) (setq i (+ i 1))) (emit (length l)) (emit (apply (lambda (a &rest b) (list a (length b))) l)) (emit (car (cdr l))))\nexec\ngc\nexec\n"
    return head(prop) + text


WIDE = [("long data", long, ("P04", "P01")), ("deep structures", deep, ("P01", "P02", "P14")), ("far operands", far, ("P03", "P04", "P12", "P13")), ("many names", names, ("P05", "P13", "P16"))]


def wide(prop):
    return [(name, make(prop)) for name, make, props in WIDE if prop in props]
