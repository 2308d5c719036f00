/* L14: how much there is changes nothing.  The programs are short and loop or recurse a large number of times, so the
   expected values are computed here and not by the reference interpreter. */
#include "common.hpp"

namespace {
struct Load { std::string src, want, note; bool fails = false, keep = false; };
struct Big {
	Case &c;
	Src &s;
	std::vector<Load> loads;
	size_t vm = 4000, ct = 3000;
	bool pool = false;   /* DuckLib's allocator, which walks its list of blocks */
	explicit Big(Case &cc) : c(cc), s(cc.s) {}

	/* sizes near those at which a counter of 8 or 16 bits starts again, or spread over the magnitudes */
	int size(int most, bool allocates = true) {
		if (pool && allocates && most > 300) most = 300;
		int n;
		switch (s.below(4)) {
		case 0: n = s.range(0, 300); break;
		case 1: n = s.range(250, 262); break;
		case 2: n = s.chance(50) ? s.range(65530, 65545) : s.range(32760, 32775); break;
		default: { int b = s.range(5, 16); n = (1 << b) + s.range(0, (1 << b) - 1); break; }
		}
		return n > most ? most - s.range(0, most / 10) : n;
	}
	void add(const std::string &src, const std::string &want, const std::string &note = "", bool fails = false) {
		Load l;
		l.src = src; l.want = want; l.note = note; l.fails = fails;
		loads.push_back(l);
	}
	std::string num(long long n) { return strf("%lld", n); }
	std::string pad(int most = 3) {
		std::string t;
		int k = s.range(0, most);
		for (int i = 0; i < k; i++) t += strf("(var p%d %d) ", i, i);
		return t;
	}
	/* heap: what is alive at the same time and a part of it more, so that there are collections, but not at every step */
	void heap(size_t alive) { vm = alive + alive / 4 + 300 + (s.chance(30) ? alive * 2 : 0); }

	void recursion() {
		int n = size(20000, false), m = s.range(0, 9), k = s.range(1, 5);
		long long sum = (long long) n * (n + 1) / 2;
		std::string src, want = num(sum + m), tail = num(m);
		switch (s.below(7)) {
		case 0: src = strf("(() (defun f (n) (if (= n 0) %d (+ n (self (- n 1))))) (f %d))", m, n); break;
		case 1: src = strf("(() (global f (lambda (n) (if (= n 0) %d (+ n (f (- n 1)))))) (f %d))", m, n); break;
		case 2: src = strf("(() %s(defun f (n) %s(var r %d) (if (= n 0) () (setq r (+ n (self (- n 1))))) r) (f %d))", pad().c_str(), "(var a n) ", m, n); break;
		case 3: src = strf("(() (global f (lambda (n) (if (= n 0) %d (+ n (apply f (list (- n 1))))))) (apply f (quote (%d))))", m, n); break;
		case 4: src = strf("(() (var t %d) (defun f (n) (if (= n 0) t (() (setq t (+ t n)) (self (- n 1))))) (f %d))", m, n); break;
		case 5: src = strf("(() (global ev (lambda (n) (if (= n 0) %d (od (- n 1))))) (global od (lambda (n) (if (= n 0) %d (ev (- n 1))))) (ev %d))", m, m + k, n); want = num(n % 2 ? m + k : m); break;
		default: src = strf("(() (defun f (n &rest r) (if (= n 0) (length r) (+ (length r) (self (- n 1) n 1)))) (f %d))", n); want = num((long long) n * 2); break;
		}
		heap((size_t) n * 4);
		add(src, want, strf("recursion %d deep", n));
		if (s.chance(30)) {
			add(strf("(() (defun f (n) (if (= n 0) (car 5) (+ n (self (- n 1))))) (f %d))", n), "", "a fault at the bottom", true);
			add(strf("(() (defun f (n) (if (= n 0) %d (+ n (self (- n 1))))) (f %d))", m, n), num(sum + m), "and again");
		}
		c.label("recursion");
	}
	void list() {
		int n = size(70000, false), i = n ? s.range(0, n - 1) : 0;
		std::string build;
		if (s.chance(50)) build = strf("(var l ()) (var i 0) (while (< i %d) (setq i (+ i 1)) (setq l (cons i l)))", n);
		else build = strf("(var l ()) (var i %d) (while (> i 0) (setq l (cons i l)) (setq i (- i 1)))", n);
		bool down = build.find("(- i 1)") == std::string::npos;
		int at = down ? n - i : i + 1;
		heap((size_t) n * 2);
		switch (s.below(5)) {
		case 0: add("(() " + build + " (length l))", num(n), "length"); break;
		case 1: {
			int g = s.chance(50);
			add("(() " + build + strf(" (var t 0) (var k 0) (while (not (null? l)) (setq t (+ t (car l))) (setq k (+ k 1)) (setq l (cdr l)) %s) (list k t))", g ? "(if (= k 5) (gc!) ())" : ""),
			    strf("(%d %lld)", n, (long long) n * (n + 1) / 2), "sum"); break; }
		case 2:
			if (!n) { add("(() " + build + " l)", "()", "empty"); break; }
			add("(() " + build + strf(" (var p l) (var k 0) (while (< k %d) (setq p (cdr p)) (setq k (+ k 1))) (var o (car p)) (set-car p -7) (var t 0) (setq k 0) (while (not (null? l)) (setq t (+ t (car l))) (setq k (+ k 1)) (setq l (cdr l))) (list o k t))", i),
			    strf("(%d %d %lld)", at, n, (long long) n * (n + 1) / 2 - at - 7), "one element replaced"); break;
		case 3:
			add("(() " + build + " (global kept l) 5)", "5", "kept in a global");
			add("(() (gc!) (var x (length kept)) (setq kept ()) (gc!) x)", num(n), "by the next source");
			add("(() " + build + " (length l))", num(n), "and once more, in the same space"); break;
		default: {
			/* the other way: every list the element of the next one */
			std::string what = s.chance(50) ? "(list x)" : s.chance(50) && !(pool && n > 300) ? "(vector x)" : "(cons x 3)";
			bool vec = what == "(vector x)";
			heap((size_t) n * 3);
			add(strf("(() (var x 4) (var i 0) (while (< i %d) (setq x %s) (setq i (+ i 1))) (gc!) (setq i 0) (while (< i %d) (setq x %s) (setq i (+ i 1))) x)", n, what.c_str(), n, vec ? "(get-vector-element x 0)" : "(car x)"),
			    "4", "nested " + what); break; }
		}
		c.label("lists");
	}
	void vector() {
		int n = size(70000, false) + 1, i = s.range(0, n - 1), j = s.range(0, n - 1);
		if (s.chance(50) && n > 256) j = (i + (s.chance(50) && n > 65536 ? 65536 : 256)) % n;
		heap((size_t) n * 2);
		int last = i == j ? 22 : 11;
		switch (s.below(4)) {
		case 0:
			add(strf("(() %s(var v (make-vector %d 3)) (set-vector-element v %d 11) (set-vector-element v %d 22) (list (length v) (get-vector-element v %d) (get-vector-element v %d)))", pad().c_str(), n, i, j, i, j),
			    strf("(%d %d %d)", n, last, 22), "two elements"); break;
		case 1:
			add(strf("(() (var v (make-vector %d 0)) (var i 0) (while (< i %d) (set-vector-element v i (* i 2)) (setq i (+ i 1))) (gc!) (var t 0) (setq i 0) (while (< i %d) (setq t (+ t (get-vector-element v i))) (setq i (+ i 1))) t)", n, n, n),
			    num((long long) n * (n - 1)), "every element"); break;
		case 2:
			add(strf("(() (var v (make-vector %d 1)) (set-vector-element v %d 5) (var t 0) (var k 0) (while (not (null? v)) (setq t (+ t (car v))) (setq k (+ k 1)) (setq v (cdr v))) (list k t))", n, i),
			    strf("(%d %d)", n, n + 4), "walked with cdr"); break;
		default: {
			/* out of range by little or much */
			int over = s.pick(std::vector<int>{0, 1, 255, 256, 65535, 65536});
			bool set = s.chance(50);
			std::string at = num((long long) n + over);
			add(strf("(() (global v (make-vector %d 3)) (set-vector-element v %d 6) (length v))", n, i), num(n), "kept");
			add(set ? "(set-vector-element v " + at + " 9)" : "(get-vector-element v " + at + ")", "", "out of range", true);
			add(strf("(() (var i 0) (var t 0) (while (< i %d) (setq t (+ t (get-vector-element v i))) (setq i (+ i 1))) t)", n), num((long long) n * 3 + 3), "unchanged"); break; }
		}
		c.label("vectors");
	}
	void string() {
		int n = size(70000), i = n ? s.range(0, n - 1) : 0;
		/* the string is put together by doubling */
		std::string b = "(var r \"\") (var d \"a\") (var n " + num(n) + ") (while (> n 0) (if (= (* (/ n 2) 2) n) () (setq r (concatenate r d))) (setq d (concatenate d d)) (setq n (/ n 2)))";
		vm = 3000;
		switch (s.below(4)) {
		case 0: add("(() " + b + " (length r))", num(n), "length"); break;
		case 1: {
			int j = s.range(i, n);
			add("(() " + b + strf(" (setq r (concatenate (concatenate (substring r 0 %d) \"b\") (substring r %d %d))) (list (length r) (substring r %d %d) (length (substring r %d %d))))", i, i, n, i, i + 1, i, j + 1),
			    strf("(%d \"b\" %d)", n + 1, j + 1 - i), "a letter in the middle"); break; }
		case 2: {
			int k = s.range(0, n);
			add("(() " + b + strf(" (var x (concatenate r \"x\")) (var y (concatenate r \"y\")) (list (= x y) (= x (concatenate r \"x\")) (= (substring r 0 %d) r)))", k),
			    strf("(#f #t %s)", k == n ? "#t" : "#f"), "compared"); break; }
		default:
			add("(() " + b + " (var k 0) (while (not (null? r)) (setq k (+ k 1)) (setq r (cdr r))) k)", num(n), "walked with cdr"); break;
		}
		c.label("strings");
	}
	void types() {
		int n = size(66000);
		vm = 3000;
		switch (s.below(3)) {
		case 0:
			add(strf("(() (var t (make-type)) (var q 0) (var i 0) (while (< i %d) (if (= t (make-type)) (setq q (+ q 1)) ()) (setq i (+ i 1))) q)", n), "0", "types compared with the first"); break;
		case 1:
			add("(() (global t (make-type)) (global o (make-instance t 1 2)) (= t (type-of o)))", "#t", "an object");
			add(strf("(() (var q 0) (var i 0) (var x ()) (while (< i %d) (setq x (make-instance (make-type) i ())) (if (= (type-of x) (type-of o)) (setq q (+ q 1)) ()) (setq i (+ i 1))) q)", n), "0", "objects of other types");
			add("(list (= t (type-of o)) (composite-value o))", "(#t 1)", "the first object"); break;
		default:
			add(strf("(() (var q 0) (var i 0) (var p (make-type)) (var x ()) (while (< i %d) (setq x (make-type)) (if (= x (type-of 5)) (setq q (+ q 1)) ()) (if (= x (type-of \"\")) (setq q (+ q 1)) ()) (if (= x (type-of ())) (setq q (+ q 1)) ()) (if (= x p) (setq q (+ q 1)) ()) (setq p x) (setq i (+ i 1))) q)", n), "0", "types compared with those of other things"); break;
		}
		c.label("types");
	}
	void sessions() {
		int n = size(1500) + 2, i = s.range(0, n - 1);
		int how = s.below(3);
		vm = 3000 + (size_t) n * 12;
		long long sum = 0;
		for (int k = 0; k < n; k++) {
			switch (how) {
			case 0: add(strf("(global g%d %d)", k, k), num(k)); break;
			case 1: add(strf("(() (var h %d) (global g%d (lambda () (setq h (+ h 1)))) %d)", k, k, k), num(k)); break;
			default: add(strf("(() (var q (quote s%d)) (if (= (quote s%d) q) %d 0))", k, k, k), num(k)); break;
			}
			sum += k;
		}
		loads[0].note = strf("%d sources", n);
		if (how == 0) add(strf("(list g0 g%d g%d)", i, n - 1), strf("(0 %d %d)", i, n - 1), "the globals of others");
		else if (how == 1) add(strf("(list (g%d) (g0) (g%d))", n - 1, n - 1), strf("(%d 1 %d)", n, n + 1), "functions of others");
		else add(strf("(symbol-string (quote s%d))", i), strf("\"s%d\"", i), "a symbol of another");
		if (how == 1 && n > 2) { loads.back().src = strf("(() (var a (g%d)) (var b (g0)) (var d (g%d)) (list a b d))", n - 1, n - 1); }
		c.label("many sources");
	}
	std::string word(int n) {
		std::string t = "v";
		static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789-+*/!?<>_.:&%$@^~|[]{}";
		int from = s.below(20);
		for (int i = 1; i < n; i++) t += al[(i * 7 + from) % (sizeof al - 1)];
		return t;
	}
	void names() {
		int n = size(3000) + 1;
		std::string p = word(n), a = p + "A", b = p + "B";
		std::string A = a, B = b, P = p;
		vm = 3000;
		switch (s.below(7)) {
		case 0: add("(list (= (quote " + a + ") (quote " + b + ")) (= (quote " + a + ") (quote " + a + ")) (= (quote " + p + ") (quote " + a + ")))", "(#f #t #f)", "symbols"); break;
		case 1: add("(() (var " + a + " 1) (var " + b + " 2) (var " + p + " 3) (setq " + a + " 4) (list " + a + " " + b + " " + p + "))", "(4 2 3)", "variables"); break;
		case 2: add("(() (global " + a + " 1) (global " + p + " 3) (global " + b + " 2) (setq " + b + " 5) 0)", "0", "globals");
			add("(list " + b + " " + p + " " + a + ")", "(5 3 1)", "in the next source"); break;
		case 3: add("(() (defun " + a + " (x) (+ x 1)) (defun " + b + " (x) (+ x 2)) (list (" + b + " 1) (" + a + " 1)))", "(3 2)", "functions"); break;
		case 4: add("(() (defmacro " + a + " () 1) (defmacro " + b + " () 2) (list (" + b + ") (" + a + ")))", "(2 1)", "macros"); break;
		case 5: add("(list (length (symbol-string (quote " + a + "))) (= (symbol-string (quote " + a + ")) \"" + a + "\"))", strf("(%d #t)", n + 1), "the name"); break;
		default: add("(() (var x (quote " + a + ")) (global y x) (= (symbol-id x) (symbol-id (quote " + a + "))))", "#t", "identity");
			add("(list (= y (quote " + a + ")) (= y (quote " + b + ")))", "(#t #f)", "in the next source"); break;
		}
		loads[0].note += strf(", names of %d bytes", n + 1);
		c.label("long names");
	}
	void gensyms() {
		int k = size(66000);
		std::string loop = strf("(var i 0) (while (< i %d) (gensym) (setq i (+ i 1)))", k);
		std::string m;
		switch (s.below(3)) {
		case 0:
			m = "(defmacro m () (var a (gensym)) " + loop + " (var b (gensym)) (list () (list (quote var) a 1) (list (quote var) b 2) (list (quote list) a b)))";
			add("(() " + m + " (m))", "(1 2)", strf("%d gensyms between two that are used", k)); break;
		case 1:
			m = "(comptime (global a (gensym))) (comptime (() " + loop + " 0)) (defmacro m () (var b (gensym)) (list () (list (quote var) a 1) (list (quote var) b 2) (list (quote list) a b)))";
			add("(() " + m + " (m))", "(1 2)", strf("%d gensyms between two that are used", k)); break;
		default:
			add(strf("(comptime (() (var a (gensym)) (var b a) (var q 0) (var i 0) (while (< i %d) (var g (gensym)) (if (= g a) (setq q (+ q 1)) ()) (if (= g b) (setq q (+ q 1)) ()) (setq b g) (setq i (+ i 1))) q))", k), "0", strf("%d gensyms compared with the first", k)); break;
		}
		c.label("gensyms");
	}
	void chain() {
		int n = size(20000), m = s.range(0, 9);
		heap((size_t) n * 9);
		switch (s.below(3)) {
		case 0:
			add(strf("(() (var i 0) (var f (lambda () %d)) (while (< i %d) (setq f (funcall (lambda (g) (lambda () (+ 1 (funcall g)))) f)) (setq i (+ i 1))) (gc!) (funcall f))", m, n), num((long long) m + n), strf("%d closures, each calling the last", n)); break;
		case 1:
			add(strf("(() (var i 0) (var o %d) (while (< i %d) (setq o (make-instance (quote t) o ())) (setq i (+ i 1))) (gc!) 0)", m, 0), "0", "");
			loads.clear();
			add(strf("(() (var t (make-type)) (var i 0) (var o %d) (while (< i %d) (setq o (make-instance t o ())) (setq i (+ i 1))) (gc!) (setq i 0) (while (= (type-of o) t) (setq o (composite-value o)) (setq i (+ i 1))) (list o i))", m, n), strf("(%d %d)", m, n), "instances in instances"); break;
		default: {
			add(strf("(() (var i 0) (var l ()) (while (< i %d) (setq l (cons (funcall (lambda (x) (lambda (y) (setq x (+ x y)))) i) l)) (setq i (+ i 1))) (var t 0) (while (not (null? l)) (setq t (+ t (funcall (car l) 1))) (setq l (cdr l))) t)", n), num((long long) n * (n - 1) / 2 + n), strf("%d closures in a list", n)); break; }
		}
		c.label("closures");
	}
	void statements() {
		int n = size(8000) + 1, k = s.range(1, 4);
		std::string t = "(() (var x 0) ";
		int how = s.below(4);
		long long want = 0;
		for (int i = 0; i < n; i++) {
			switch (how) {
			case 0: t += strf("(setq x (+ x %d))\n", k); want += k; break;
			case 1: t += strf("(if (= x %d) (setq x (+ x 1)) (setq x -1))\n", i); want++; break;
			case 2: t += strf("; %d\n (() (var y %d) (setq x (+ x y)))", i, i); want += i; break;
			default: t += strf("(setq x (funcall (lambda (y) (+ y %d)) x))", k); want += k; break;
			}
		}
		vm = 4000 + (how == 3 ? (size_t) n * 2 : 0);
		add(t + " x)", num(want), strf("%d statements", n));
		c.label("statements");
	}
	void loop() {
		int n = size(200000, false);
		if (pool) n /= 8;
		else if (s.chance(30)) n = s.range(100000, 200000);
		vm = 2000;
		switch (s.below(4)) {
		case 0: add(strf("(() (var i 0) (var t 0) (while (< i %d) (setq t (+ t i)) (setq i (+ i 1))) t)", n), num((long long) n * (n - 1) / 2), strf("%d rounds", n)); break;
		case 1: add(strf("(() (var i 0) (while (< i %d) (() (var a (list i i)) (var b (vector a i)) (setq i (+ (car (car b)) 1)))) i)", n / 2), num(n / 2), strf("%d rounds with garbage", n / 2)); break;
		case 2: add(strf("(() (var i 0) (var t 0) (while (not (= i %d)) (setq i (+ i 1)) (setq t (funcall (lambda (x) (- i x)) t))) t)", n / 2), num((n / 2 + 1) / 2), strf("%d calls", n / 2)); break;
		default: add(strf("(() (var i 0) (defun f (&rest r) (length r)) (var t 0) (while (< i %d) (setq t (+ t (f i i i))) (setq i (+ i 1))) t)", n / 2), num((long long) (n / 2) * 3), strf("%d variadic calls", n / 2)); break;
		}
		c.label("loops");
	}
	void plan() {
		switch (s.weighted({18, 16, 12, 10, 10, 5, 14, 8, 8, 5, 8})) {
		case 0: recursion(); break;
		case 1: list(); break;
		case 2: vector(); break;
		case 3: string(); break;
		case 4: types(); break;
		case 5: sessions(); break;
		case 6: names(); break;
		case 7: gensyms(); break;
		case 8: chain(); break;
		case 9: statements(); break;
		default: loop(); break;
		}
		add("(() (defun f (x) (list x (vector x))) (f 3))", "(3 [3])", "something small afterwards");
	}
};
}

static void scale_run(Case &c) {
	const char *cfg = c.s.pick(std::vector<const char *>(ALL_CFG, ALL_CFG + 4));
	Big b(c);
	b.pool = engine(cfg)->uses_pool;
	b.plan();
	for (auto &l : b.loads) if (!l.note.empty()) c.text += "; " + l.note + "\n" + l.src.substr(0, 1500) + (l.src.size() > 1500 ? " …" : "") + "\n";
	c.nontrivial = true;
	c.publish();
	{
		Session se(cfg, b.vm, b.ct, 1, 192u << 20, 2);
		for (auto &l : b.loads) {
			Result r = se.run(l.src);
			c.evals++;
			std::string what = strf("configuration %s, %s: ", cfg, l.note.empty() ? l.src.substr(0, 200).c_str() : l.note.c_str());
			if (r.compile == 6 || r.exec == 6) c.discard("out of memory: " + what);
			if (l.fails) {
				if (r.compile || !r.exec) c.fail(what + "expected a run-time error, got " + r.outcome().substr(0, 300));
				se.a->soft_reset(se.s);
				continue;
			}
			std::string got = r.ok() ? r.value : r.outcome();
			if (got != l.want) c.fail(what + "expected " + l.want + ", got " + got.substr(0, 300) + " " + r.cerr.substr(0, 200) + r.verr.substr(0, 200));
			if (r.after != r.before + 1) c.fail(what + strf("the stack went from %zu to %zu", r.before, r.after));
		}
	}
}
static Register r_l14({"L14",
	"short programs with large counts, mostly just below and above 256, 32768 and 65536: recursion up to 20000 calls deep (by name, self, apply, in turn, variadic, with a fault at the bottom), lists, vectors and strings of up to 70000 elements built, indexed, changed, walked and nested, 66000 types, 66000 generated symbols, names of up to 3000 bytes that differ in the last, 1500 sources in a session, 20000 closures in a chain, 8000 statements, 200000 rounds of a loop, with a heap not much larger than needed; the values are computed by formula, and the stack and a small program afterwards are as always. Every case is non-trivial.",
	scale_run, 1000, 30000, {"default", "noopt", "portable", "inference"},
	"a case that exhausts the memory it was given is discarded"});
