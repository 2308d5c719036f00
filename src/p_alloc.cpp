/* D03: DuckLib's pool allocator against a model of disjoint blocks. */
#include <algorithm>
#include <memory>
#include "common.hpp"
#include "rawapi.h"

namespace {
enum { MALLOC, REALLOC, FREE, BAD_FREE, BAD_REALLOC, REALLOC_ZERO };
struct Op { int op, slot; size_t n; int how; };
struct Block { unsigned char *p = nullptr; size_t n = 0; unsigned seed = 0; };
unsigned char pat(unsigned seed, size_t i) { return (unsigned char) (seed * 37u + i * 11u + (i >> 8)); }
const char *const FITS[] = {"first", "next", "best", "worst"};

struct Pool {
	Case &c;
	const raw_api *r;
	unsigned char *mem;
	size_t size;
	void *ma = nullptr;
	Pool(Case &cc, const raw_api *rr, size_t n) : c(cc), r(rr), size(n) {
		void *p = nullptr;
		if (posix_memalign(&p, 16, n ? n : 1)) throw std::bad_alloc();
		mem = (unsigned char *) p;
		memset(mem, 0xcd, n);
	}
	Pool(const Pool &) = delete;
	~Pool() { if (ma) r->ma_delete(ma); free(mem); }
};
struct Chunk { size_t at, n; };

void alloc_run(Case &c) {
	Src &s = c.s;
	int fit = s.range(0, 3);
	/* pools from too small for the table to comfortable */
	size_t size;
	switch (s.weighted({4, 30, 40, 20, 6})) {
	case 0: size = (size_t) s.range(0, 140); break;
	case 1: size = (size_t) s.range(140, 1500); break;
	case 2: size = (size_t) s.range(1500, 8000); break;
	case 3: size = (size_t) s.range(8000, 60000); break;
	default: size = (size_t) s.range(200000, 400000);
	}
	int nslots = s.range(1, c.thorough ? 60 : 30), nops = s.range(1, c.thorough ? 500 : 150), big = s.range(0, 12);
	std::vector<Op> ops;
	auto bytes = [&]() -> size_t {
		switch (s.weighted({40, 25, 15, 3, big, 2, 2})) {
		case 0: return (size_t) s.range(0, 64);
		case 1: return (size_t) s.range(0, (int) (size / 20 + 1));
		case 2: return (size_t) s.range(0, (int) (size / 6 + 1));
		case 3: return 8 * (size_t) s.range(0, 40);
		case 4: return (size_t) s.range(0, (int) size + 100);
		case 5: return SIZE_MAX - (size_t) s.range(0, 40);
		default: return s.chance(50) ? (size_t) PTRDIFF_MAX + (size_t) s.range(-5, 5) : SIZE_MAX / 2 - (size_t) s.range(0, 9999);
		}
	};
	c.text = strf("; pool of %zu bytes, %s fit\n", size, FITS[fit]);
	int mode = 0, left = 0;
	for (int k = 0; k < nops; k++) {
		if (left-- <= 0) { mode = s.range(0, 3); left = s.range(3, 25); }
		Op o{};
		o.slot = s.range(0, nslots - 1);
		static const std::vector<int> W[] = {{60, 15, 10, 2, 2, 1}, {10, 15, 60, 3, 2, 1}, {25, 50, 20, 2, 2, 1}, {40, 10, 40, 5, 4, 1}};
		o.op = s.weighted(W[mode]);
		switch (o.op) {
		case MALLOC: case REALLOC: o.n = bytes(); if (o.op == REALLOC && !o.n) o.n = 1; c.text += strf("%s %d to %zu\n", o.op == MALLOC ? "set" : "resize", o.slot, o.n); break;
		case FREE: c.text += strf("free %d\n", o.slot); break;
		case BAD_FREE: case BAD_REALLOC: o.how = s.range(0, 2); o.n = 1 + s.below(40); c.text += strf("%s with %s %d, %zu\n", o.op == BAD_FREE ? "free" : "resize", o.how == 0 ? "a null pointer after" : o.how == 1 ? "a pointer into" : "the old pointer of", o.slot, o.n); break;
		default: c.text += strf("resize %d to 0\n", o.slot);
		}
		ops.push_back(o);
	}
	c.label(strf("%s fit", FITS[fit]));
	c.publish();
	const raw_api *r = (const raw_api *) engine("portable")->raw;
	Pool pool(c, r, size);
	int e = 0;
	pool.ma = r->ma_new(pool.mem, size, fit, &e);
	c.evals++;
	const size_t D = r->block_descriptor_size;
	if (!pool.ma) {
		if (size >= 2 * D + 64) c.fail(strf("a pool of %zu bytes was refused\n", size));
		c.nontrivial = false;
		return;
	}
	std::vector<Block> b((size_t) nslots);
	std::vector<unsigned char *> old((size_t) nslots, nullptr);
	size_t peak = 0;
	unsigned seeds = 0;
	int grants = 0, reuse = 0, refusals = 0, moves = 0;
	std::string where;
	auto inside = [&](const void *p, size_t n) { auto q = (const unsigned char *) p; return q >= pool.mem && q <= pool.mem + size && n <= (size_t) (pool.mem + size - q); };
	auto table = [&](size_t *at, size_t *n) {
		const void *t;
		r->ma_table(pool.ma, &t, n);
		if (!inside(t, *n)) c.fail(where + "the allocator's table is outside of the pool\n");
		*at = (size_t) ((const unsigned char *) t - pool.mem);
	};
	auto check = [&](bool all, size_t touched) {
		std::vector<std::pair<size_t, size_t>> used;
		size_t live = 0, rounded = 0, t, tn;
		table(&t, &tn);
		used.push_back({t, tn});
		for (size_t i = 0; i < b.size(); i++) {
			if (!b[i].p) continue;
			if (!inside(b[i].p, b[i].n)) c.fail(where + strf("block %zu (%zu bytes) is not inside the pool\n", i, b[i].n));
			if ((uintptr_t) b[i].p % 8) c.fail(where + strf("block %zu is not aligned\n", i));
			used.push_back({(size_t) (b[i].p - pool.mem), b[i].n ? b[i].n : 1});
			live += b[i].n;
			rounded += b[i].n + 16;
			if (!all && i != touched && b[i].n > 600) continue;
			for (size_t k = 0; k < b[i].n; k++)
				if (b[i].p[k] != pat(b[i].seed, k)) c.fail(where + strf("byte %zu of block %zu (%zu bytes) has changed\n", k, i, b[i].n));
		}
		std::sort(used.begin(), used.end());
		for (size_t i = 1; i < used.size(); i++)
			if (used[i - 1].first + used[i - 1].second > used[i].first) c.fail(where + "two blocks (or a block and the allocator's table) overlap\n");
		size_t u = r->ma_usage(pool.ma);
		if (u < live || u > rounded + tn + 16) c.fail(where + strf("%zu bytes are reported as used; %zu are (and %zu for the table)\n", u, live, tn));
		long n = 0;
		for (auto &x : b) n += x.p != nullptr;
		if (r->ma_live(pool.ma) != n) c.fail(where + strf("%ld blocks are allocated, expected %ld\n", r->ma_live(pool.ma), n));
		if ((size_t) n > peak) peak = (size_t) n;
	};
	/* gaps between the caller's blocks; the allocator's table lies in one of them */
	auto gaps = [&](bool with_table, size_t except) {
		std::vector<std::pair<size_t, size_t>> used;
		for (size_t i = 0; i < b.size(); i++) if (b[i].p && i != except) used.push_back({(size_t) (b[i].p - pool.mem), b[i].n});
		if (with_table) { size_t t, tn; table(&t, &tn); used.push_back({t, tn}); }
		std::sort(used.begin(), used.end());
		std::vector<Chunk> g;
		size_t at = 0;
		for (auto &x : used) { if (x.first > at) g.push_back({at, x.first - at}); at = x.first + x.second; }
		if (at < size) g.push_back({at, size - at});
		return g;
	};
	/* Memory enough for a table of every descriptor ever needed, its larger copy, the request, and a chunk that is cut in two by the table. */
	auto must_fit = [&](size_t n, size_t except) {
		if (n > size) return false;
		size_t L = D * (2 * (peak + 1) + 8), need = 2 * (n + 16) + 3 * L + 200;
		for (auto &g : gaps(false, except)) if (g.n >= need + 16) return true;
		return false;
	};
	auto fill = [&](Block &x, unsigned char *p, size_t n) {
		x.p = p;
		x.n = n;
		x.seed = ++seeds;
		if (n && inside(p, n)) for (size_t k = 0; k < n; k++) p[k] = pat(x.seed, k);
	};
	for (size_t k = 0; k < ops.size(); k++) {
		const Op &o = ops[k];
		Block &x = b[(size_t) o.slot];
		where = strf("operation %zu: ", k + 1);
		switch (o.op) {
		case MALLOC: case REALLOC: {
			if (o.op == MALLOC && x.p) {         /* make room first */
				old[(size_t) o.slot] = x.p;
				void *p = x.p;
				e = r->ma_free(pool.ma, &p);
				if (e || p) c.fail(where + strf("dl_free: error %d, pointer %s\n", e, p ? "left" : "cleared"));
				x = Block();
			}
			bool fresh = !x.p;
			size_t t0, tn0, t1, tn1;
			table(&t0, &tn0);
			auto chunks = gaps(true, b.size());
			bool enough = must_fit(o.n, fresh ? b.size() : (size_t) o.slot) && (fresh || must_fit(o.n, b.size()));
			void *p = x.p;
			e = o.op == MALLOC ? r->ma_malloc(pool.ma, &p, o.n) : r->ma_realloc(pool.ma, &p, o.n);
			if (e) {
				refusals++;
				if (enough) c.fail(where + strf("%s of %zu bytes failed with error %d although there is plenty of memory\n", o.op == MALLOC ? "dl_malloc" : "dl_realloc", o.n, e));
				if (!fresh && p != x.p) c.fail(where + "dl_realloc failed and changed the pointer\n");
				break;
			}
			grants++;
			if (o.n > size) c.fail(where + strf("%zu bytes were granted from a pool of %zu\n", o.n, size));
			if (!p || !inside(p, o.n)) c.fail(where + strf("the block of %zu bytes is not inside the pool\n", o.n));
			size_t at = (size_t) ((unsigned char *) p - pool.mem);
			for (size_t i = 0; i < b.size(); i++)
				if (b[i].p && &b[i] != &x && (unsigned char *) p < b[i].p + (b[i].n ? b[i].n : 1) && b[i].p < (unsigned char *) p + (o.n ? o.n : 1)) c.fail(where + strf("the block overlaps block %zu\n", i));
			table(&t1, &tn1);
			if (at < t1 + tn1 && t1 < at + (o.n ? o.n : 1)) c.fail(where + "the block overlaps the allocator's table\n");
			if (!fresh) {
				size_t keep = std::min(x.n, o.n);
				for (size_t i = 0; i < keep; i++) if (((unsigned char *) p)[i] != pat(x.seed, i)) c.fail(where + strf("dl_realloc from %zu to %zu bytes lost byte %zu\n", x.n, o.n, i));
				if (p != x.p) { old[(size_t) o.slot] = x.p; moves++; }
			}
			else {
				for (auto q : old) if (q == p) reuse++;
				if (t0 == t1 && tn0 == tn1) {
					/* the table has not moved, so the chunks are known up to the rounding of sizes */
					const Chunk *got = nullptr;
					for (auto &g : chunks) if (at >= g.at && at < g.at + g.n) got = &g;
					if (!got) c.fail(where + "the block is in no free part of the pool\n");
					for (auto &g : chunks) {
						if (&g == got || g.n < o.n + 32) continue;
						if (fit == 0 && g.at < got->at) c.fail(where + strf("first fit took the chunk of %zu bytes at %zu for %zu bytes before the one of %zu at %zu\n", got->n, got->at, o.n, g.n, g.at));
						if (fit == 2 && got->n > g.n + 32) c.fail(where + strf("best fit took a chunk of %zu bytes for %zu bytes; there is one of %zu\n", got->n, o.n, g.n));
						if (fit == 3 && got->n + 32 < g.n) c.fail(where + strf("worst fit took a chunk of %zu bytes; there is one of %zu\n", got->n, g.n));
					}
				}
			}
			fill(x, (unsigned char *) p, o.n);
			break;
		}
		case FREE: {
			void *p = x.p;
			e = r->ma_free(pool.ma, &p);
			if ((e != 0) != !x.p) c.fail(where + strf("dl_free of %s: error %d\n", x.p ? "a block" : "a null pointer", e));
			if (p) c.fail(where + "dl_free left the pointer\n");
			if (x.p) old[(size_t) o.slot] = x.p;
			x = Block();
			break;
		}
		case BAD_FREE: case BAD_REALLOC: {
			void *p = nullptr;
			if (o.how == 1 && x.p && x.n > 1) p = x.p + 1 + (o.n % (x.n - 1 ? x.n - 1 : 1));
			if (o.how == 2) p = old[(size_t) o.slot];
			size_t t, tn;
			table(&t, &tn);
			bool valid = p == pool.mem + t;      /* the allocator's own block */
			for (auto &q : b) if (q.p == p && p) valid = true;
			if (valid || (!p && o.op == BAD_REALLOC)) break;
			e = o.op == BAD_FREE ? r->ma_free(pool.ma, &p) : r->ma_realloc(pool.ma, &p, o.n);
			if (!e) c.fail(where + "a pointer that is not a block was accepted\n");
			break;
		}
		default: {
			if (!x.p) break;
			void *p = x.p;
			e = r->ma_realloc(pool.ma, &p, 0);
			if (!e) { x = Block(); if (p) fill(x, (unsigned char *) p, 0); break; }
			if (p != x.p) c.fail(where + "dl_realloc failed and changed the pointer\n");
		}
		}
		check(k % 16 == 15 || k + 1 == ops.size(), (size_t) o.slot);
	}
	where = "at the end: ";
	for (auto i : {0, 1}) for (size_t k = 0; k < b.size(); k++) {
		if ((int) (k & 1) != i || !b[k].p) continue;
		void *p = b[k].p;
		e = r->ma_free(pool.ma, &p);
		if (e || p) c.fail(where + strf("dl_free of block %zu: error %d\n", k, e));
		b[k] = Block();
		check(false, b.size());
	}
	size_t L = D * (2 * (peak + 1) + 8);
	if (size > 3 * L + 300) {
		size_t n = (size - 3 * L - 300) / 2;
		void *p = nullptr;
		e = r->ma_malloc(pool.ma, &p, n);
		if (e) c.fail(where + strf("%zu of %zu bytes can't be had after everything was freed\n", n, size));
		if (!inside(p, n)) c.fail(where + "the block is not inside the pool\n");
		memset(p, 0x11, n);
		if (r->ma_free(pool.ma, &p)) c.fail(where + "dl_free failed\n");
	}
	c.nontrivial = grants >= 5 && (reuse || moves || refusals);
	if (reuse) c.label("memory used again");
	if (moves) c.label("blocks moved");
	if (refusals) c.label("requests refused");
}
}
static Register r_d03({"D03", "a pool of 0 to 400000 bytes (a heap block of exactly that size, under AddressSanitizer), one of the four fit strategies, and up to 150 (thorough: 500) operations in phases of growth, shrinking, resizing and mixture on up to 30 (60) slots: allocate 0 bytes to the whole pool and beyond, and nearly SIZE_MAX; resize; free; free or resize null, interior and old pointers; resize to nothing. After each operation the blocks are inside the pool, aligned to 8, disjoint from each other and from the allocator's table, and hold what was written to them; resizing keeps the common part; what fails changes nothing and leaves the block alive; null and stray pointers are refused; a request fails only if no gap between live blocks is about twice as large as it and the table needs; first, best and worst fit choose the lowest, smallest and largest chunk; usage is the live bytes up to rounding plus the table. In the end everything is freed, no block is left, and a large block can be had. Non-trivial: at least five grants, with reuse, a move or a refusal.", alloc_run, 60000, 800000, {"portable"}, "Only DuckLib's own allocator; the others hand requests to the C library. Strategy is checked when the table did not move, up to 32 bytes of rounding."});
