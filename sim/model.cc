/* Containers of the repository driven by a random history beside small reference models.
 * An operation is four numbers.  Rules, the same for every container:
 *   - an operation that was refused no memory answers exactly what the model answers;
 *   - an operation that was refused memory may report failure, and then nothing has changed: never partly done, never "done" although it was not;
 *   - the whole content is compared with the model after every refused operation, now and then, and at the end. */
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
extern "C" {
#include "vector.h"
#include "stack.h"
#include "strings.h"
#include "map.h"
#include "hash.h"
#include "tree.h"
#include "node_vector.h"
#include "utf8.h"
#include "uniio.h"
#include "uniscanner.h"
#include "uniprinter.h"
#include "storage.h"
#include "keywords.h"
#include "workspace.h"
}
#include "seam.h"

typedef long long ll;
using std::string;
static string where;
static bool bad;
static long before;
static long op_no;

static void fail(const char *fmt, ...)
{
	if (bad) return;
	bad = true;
	char t[400];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(t, sizeof t, fmt, ap);
	va_end(ap);
	sim_violation("model:%s op %ld: %s%s", where.c_str(), op_no, t, sim_alloc_failed_now() != before ? " (the operation was refused memory)" : "");
}
static bool refused() { return sim_alloc_failed_now() != before; }
static void start() { before = sim_alloc_failed_now(); }

/* the answer of an operation that may need memory: good == it reports success.  true: it was applied */
static bool settle(const char *op, bool good, bool expected)
{
	if (good && expected) return true;
	if (good && !expected) { fail("%s succeeded where it must fail", op); return false; }
	if (!good && expected && !refused()) fail("%s failed though it was refused no memory", op);
	return false;
}

struct ops_t
{
	const long *p; int n, i = 0;
	bool next(long &c, long &a, long &b, long &d) { if (bad || i + 4 > n) return false; op_no = i / 4; c = p[i]; a = p[i + 1]; b = p[i + 2]; d = p[i + 3]; i += 4; start(); return true; }
};

static ll value_of(long a)
{
	static const ll special[] = { 0, 1, -1, 255, 256, 65535, 65536, 2147483647LL, -2147483648LL, 4294967296LL, LLONG_MIN, LLONG_MAX - 1, 0x7ff0000000000000LL, (ll)0x8000000000000001ULL };
	return a % 3 ? a : special[(size_t)(a / 3) % (sizeof special / sizeof *special)];
}
static double double_of(long a)
{
	static const double special[] = { 0.0, -0.0, 1.5, -1e308, 5e-324, INFINITY, -INFINITY, 3.25, 1e-10, 123456789.125 };
	return special[(size_t)a % 10] ;
}
static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
/* a position: usually inside, sometimes at or behind the end, sometimes absurd */
static size_t place(long a, size_t size)
{
	switch (a % 16)
	{
		case 0: return size;
		case 1: return size + 1;
		case 2: return SIZE_MAX;
		case 3: return SIZE_MAX - 1;
		default: return size ? (size_t)(a / 16) % size : 0;
	}
}

/* ------------------------------------------------------------------------------------------ vector, stack */

static int do_vector(ops_t &o, long alloc, bool as_stack)
{
	start();
	vector v = vector_create((size_t)alloc);
	std::vector<ll> m;
	bool live = vector_is_correct(&v);
	settle("create", live, true);
	auto same_all = [&]() {
		if (!live) { if (vector_size(&v) != SIZE_MAX || vector_is_correct(&v)) fail("a vector that could not be made says it is good"); return; }
		if (vector_size(&v) != m.size()) { fail("size is %zu, model %zu", vector_size(&v), m.size()); return; }
		for (size_t i = 0; i < m.size(); i++) if (vector_get(&v, i) != m[i]) { fail("item %zu is %lld, model %lld", i, (ll)vector_get(&v, i), m[i]); return; }
	};
	long c, a, b, d;
	while (o.next(c, a, b, d))
	{
		const size_t n = m.size();
		const double dv = double_of(b);
		ll bits; memcpy(&bits, &dv, 8);
		switch (c % (as_stack ? 16 : 20))
		{
			case 0: case 1: case 2:
				if (as_stack) { if (settle("push", stack_push(&v, value_of(a)) == 0, live)) m.push_back(value_of(a)); }
				else { size_t r = vector_add(&v, value_of(a)); if (settle("add", r != SIZE_MAX, live)) { m.push_back(value_of(a)); if (r != n) fail("add answered %zu, not %zu", r, n); } }
				break;
			case 3:
				if (as_stack) { if (settle("push_double", stack_push_double(&v, dv) == 0, live)) m.push_back(bits); }
				else { size_t r = vector_add_double(&v, dv); if (settle("add_double", r != SIZE_MAX, live)) { m.push_back(bits); if (r != n) fail("add_double answered %zu, not %zu", r, n); } }
				break;
			case 4:
				if (as_stack) { if (settle("push_int64", stack_push_int64(&v, value_of(a)) == 0, live)) m.push_back(value_of(a)); }
				else { size_t r = vector_add_int64(&v, value_of(a)); if (settle("add_int64", r != SIZE_MAX, live)) { m.push_back(value_of(a)); if (r != n) fail("add_int64 answered %zu, not %zu", r, n); } }
				break;
			case 5: { ll r = as_stack ? stack_pop(&v) : vector_remove(&v), e = n ? m.back() : ITEM_MAX; if (r != e) fail("remove answered %lld, not %lld", r, e); if (n) m.pop_back(); break; }
			case 6: { double r = as_stack ? stack_pop_double(&v) : vector_remove_double(&v), e = DBL_MAX; if (n) { memcpy(&e, &m.back(), 8); if (m.back() == LLONG_MAX) e = DBL_MAX; m.pop_back(); } if (!same(r, e)) fail("remove_double answered %g, not %g", r, e); break; }
			case 7: { ll r = as_stack ? stack_pop_int64(&v) : vector_remove_int64(&v), e = n ? m.back() : LLONG_MAX; if (r != e) fail("remove_int64 answered %lld, not %lld", r, e); if (n) m.pop_back(); break; }
			case 8: if (as_stack) { ll r = stack_peek(&v), e = n ? m.back() : ITEM_MAX; if (r != e) fail("peek answered %lld, not %lld", r, e); break; }
				{ size_t i = place(a, n); int r = vector_set(&v, i, value_of(b)); if (settle("set", r == 0, i < n)) m[i] = value_of(b); break; }
			case 9: if (as_stack) { double r = stack_peek_double(&v), e = DBL_MAX; if (n) { memcpy(&e, &m.back(), 8); if (m.back() == LLONG_MAX) e = DBL_MAX; } if (!same(r, e)) fail("peek_double answered %g, not %g", r, e); break; }
				{ size_t i = place(a, n); size_t r = vector_set_double(&v, i, dv); if (settle("set_double", r != SIZE_MAX, i < n)) { m[i] = bits; if (r != 1) fail("set_double answered %zu", r); } break; }
			case 10: if (as_stack) { ll r = stack_peek_int64(&v), e = n ? m.back() : LLONG_MAX; if (r != e) fail("peek_int64 answered %lld, not %lld", r, e); break; }
				{ size_t i = place(a, n); size_t r = vector_set_int64(&v, i, value_of(b)); if (settle("set_int64", r != SIZE_MAX, i < n)) { m[i] = value_of(b); if (r != 1) fail("set_int64 answered %zu", r); } break; }
			case 11: if (as_stack && b % 4 == 0) { if (settle("reset", stack_reset(&v) == 0, live)) m.clear(); break; }
				{ size_t i = place(a, n); ll r = vector_get(&v, i), e = i < n ? m[i] : ITEM_MAX; if (r != e) fail("get(%zu) answered %lld, not %lld", i, r, e); break; }
			case 12: { size_t i = place(a, n); double r = vector_get_double(&v, i), e = DBL_MAX; if (i < n) { memcpy(&e, &m[i], 8); if (m[i] == LLONG_MAX) e = DBL_MAX; } if (!same(r, e)) fail("get_double(%zu) answered %g, not %g", i, r, e); break; }
			case 13: { size_t i = place(a, n); ll r = vector_get_int64(&v, i), e = i < n ? m[i] : LLONG_MAX; if (r != e) fail("get_int64(%zu) answered %lld, not %lld", i, r, e); break; }
			case 14: { size_t s = vector_size(&v); if (s != (live ? n : SIZE_MAX)) fail("size answered %zu, not %zu", s, n); break; }
			case 15: same_all(); break;
			case 16: case 17: { size_t k = (size_t)a % 40; if (settle("increase", vector_increase(&v, k) == 0, live)) m.resize(n + k); break; }
			case 18: { size_t k = (size_t)a % 120; if (settle("resize", vector_resize(&v, k) == 0, live)) m.resize(k); break; }
			case 19:
				if (b % 8) break;
				if (settle("clear", vector_clear(&v) == 0, live)) { m.clear(); live = false; }
				if (vector_add(&v, 1) != SIZE_MAX || vector_get(&v, 0) != ITEM_MAX || vector_size(&v) != SIZE_MAX || vector_clear(&v) != -1) fail("a cleared vector still answers");
				start();
				v = vector_create((size_t)a % 5);
				live = vector_is_correct(&v);
				settle("create", live, true);
				break;
		}
		if (refused() || c % 8 == 0) same_all();
	}
	if (!bad) same_all();
	start();
	if (!bad) settle("clear", vector_clear(&v) == 0, live);
	return 0;
}

/* ------------------------------------------------------------------------------------------------ strings */

static const char32_t LETTERS[] = { 'a', 'b', 'Z', '_', '0', ' ', '\n', '"', 0x430, 0x44f, 0x401, 0x20ac, 0x4e2d, 0x1f600, 0x7f, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff };
static string utf8_of(const std::u32string &s)
{
	string r;
	for (char32_t c : s)
	{
		if (c < 0x80) r += (char)c;
		else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
		else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
	}
	return r;
}
static std::u32string text_of(long a, long b)
{
	static const int len[] = { 1, 1, 2, 3, 7, 8, 9, 15, 30, 63, 64, 127, 255, 256, 257, 600 };
	unsigned long x = (unsigned long)a * 2654435761u + (unsigned long)b;
	const int n = len[(size_t)b % 16];
	std::u32string s;
	for (int i = 0; i < n; i++) { x = x * 6364136223846793005UL + 1442695040888963407UL; s += LETTERS[(x >> 33) % (a % 3 ? 5 : 20)]; }
	return s;
}

static int do_strings(ops_t &o, long alloc)
{
	start();
	strings v = strings_create((size_t)alloc);
	std::vector<string> m;
	bool live = strings_is_correct(&v);
	settle("create", live, true);
	auto same_all = [&]() {
		if (strings_size(&v) != (live ? m.size() : SIZE_MAX)) { fail("size is %zu, model %zu", strings_size(&v), m.size()); return; }
		for (size_t i = 0; i < m.size(); i++)
		{
			const char *s = strings_get(&v, i);
			if (!s || m[i] != s) { fail("string %zu is \"%.40s\", model \"%.40s\"", i, s ? s : "(null)", m[i].c_str()); return; }
			if (strings_get_length(&v, i) != m[i].size()) { fail("length of string %zu is %zu, model %zu", i, strings_get_length(&v, i), m[i].size()); return; }
		}
	};
	long c, a, b, d;
	while (o.next(c, a, b, d))
	{
		const size_t n = m.size();
		const std::u32string s32 = text_of(a, b);
		const string s = utf8_of(s32);
		switch (c % 14)
		{
			case 0: case 1: case 2: { size_t r = strings_add(&v, s.c_str()); if (settle("add", r != SIZE_MAX, live)) { m.push_back(s); if (r != n) fail("add answered %zu, not %zu", r, n); } break; }
			case 3: case 4: { size_t r = strings_add_by_utf8(&v, s32.c_str()); if (settle("add_by_utf8", r != SIZE_MAX, live)) { m.push_back(s); if (r != n) fail("add_by_utf8 answered %zu, not %zu", r, n); } break; }
			case 5: case 6:
			{
				vector w = vector_create(s32.size() + 1);
				bool ok = vector_is_correct(&w);
				for (char32_t x : s32) ok = ok && vector_add(&w, (item_t)x) != SIZE_MAX;
				if (ok && d % 2) ok = vector_add(&w, 0) != SIZE_MAX && vector_add(&w, 'x') != SIZE_MAX;     /* the text ends at the first zero */
				if (ok) { size_t r = strings_add_by_vector(&v, &w); if (settle("add_by_vector", r != SIZE_MAX, live)) { m.push_back(s); if (r != n) fail("add_by_vector answered %zu, not %zu", r, n); } }
				vector_clear(&w);
				break;
			}
			case 7: case 8: { const char *r = strings_remove(&v); if (!r != (n == 0)) fail("remove answered %s", r ? "a string" : "nothing"); else if (n) { if (m.back() != r) fail("remove answered another string"); m.pop_back(); } break; }
			case 9: { size_t i = place(a, n); const char *r = strings_get(&v, i); if (!r != (i >= n)) fail("get(%zu) of %zu", i, n); else if (r && m[i] != r) fail("get(%zu) answered \"%.40s\", not \"%.40s\"", i, r, m[i].c_str()); break; }
			case 10: { size_t i = place(a, n), r = strings_get_length(&v, i), e = i < n ? m[i].size() : 0; if (r != e) fail("get_length(%zu) answered %zu, not %zu", i, r, e); break; }
			case 11: if (strings_add(&v, "") != SIZE_MAX || strings_add(&v, nullptr) != SIZE_MAX || strings_add_by_utf8(&v, nullptr) != SIZE_MAX) fail("an empty string was added"); break;
			case 12: same_all(); break;
			case 13:
				if (b % 8) break;
				if (settle("clear", strings_clear(&v) == 0, live)) { m.clear(); live = false; }
				if (strings_add(&v, "x") != SIZE_MAX || strings_get(&v, 0) || strings_size(&v) != SIZE_MAX || strings_clear(&v) != -1) fail("cleared strings still answer");
				start();
				v = strings_create((size_t)a % 3);
				live = strings_is_correct(&v);
				settle("create", live, true);
				break;
		}
		if (refused() || c % 8 == 0) same_all();
	}
	if (!bad) same_all();
	start();
	if (!bad) settle("clear", strings_clear(&v) == 0, live);
	return 0;
}

/* ---------------------------------------------------------------------------------------------------- map */

/* names of which many share a bucket: permutations have the same sum of characters */
static std::u32string key_of(long a)
{
	static const char32_t ALPHA[] = { 'a', 'b', 'c', 'd', '_', 'Z', 0x43a, 0x44e, '1', '9' };
	size_t x = (size_t)a % 97;
	std::u32string s;
	s += ALPHA[x % 4 + (a % 5 == 0 ? 4 : 0)];
	if (s[0] == '1' || s[0] == '9') s[0] = 'q';
	const size_t n = x % 7 == 0 ? 40 + x : x % 6;
	for (size_t i = 0; i < n; i++) { x = x * 31 + 7; s += ALPHA[(x >> 2) % 10]; }
	return s;
}

static universal_io io_of(const string &text, bool &ok)
{
	universal_io io = io_create();
	ok = in_set_buffer(&io, text.c_str()) == 0;
	return io;
}

static int do_map(ops_t &o, long alloc)
{
	start();
	map v = map_create((size_t)alloc);
	std::map<string, std::pair<size_t, ll>> m;
	bool live = map_is_correct(&v);
	settle("create", live, true);
	auto same_all = [&]() {
		for (auto &e : m)
		{
			/* by index: needs no memory */
			const char *s = map_to_string(&v, e.second.first);
			if (!s || e.first != s) { fail("name of record %zu is \"%.40s\", model \"%.40s\"", e.second.first, s ? s : "(null)", e.first.c_str()); return; }
			if (map_get_by_index(&v, e.second.first) != e.second.second) { fail("value of \"%.40s\" is %lld, model %lld", e.first.c_str(), (ll)map_get_by_index(&v, e.second.first), e.second.second); return; }
			start();
			size_t i = map_get_index(&v, e.first.c_str());
			if (i != e.second.first && !refused()) { fail("\"%.40s\" is found at %zu, model %zu", e.first.c_str(), i, e.second.first); return; }
		}
	};
	long c, a, b, d;
	while (o.next(c, a, b, d))
	{
		const std::u32string k32 = key_of(a);
		const string k = utf8_of(k32);
		const ll val = value_of(b) == ITEM_MAX ? 5 : value_of(b);
		auto it = m.find(k);
		const bool known = it != m.end();
		const int form = (int)(d % 3);
		char32_t last = 0;
		bool ok = true;
		const string source = k + ";tail";
		universal_io io = form == 2 ? io_of(source, ok) : universal_io();
		if (form == 2 && !ok) { fail("in_set_buffer failed"); break; }
		size_t r = 0;
		ll g = 0;
		bool looked_up = false;
		switch (c % 12)
		{
			case 0: case 1: case 2: case 3:
				r = form == 0 ? map_add(&v, k.c_str(), val) : form == 1 ? map_add_by_utf8(&v, k32.c_str(), val) : map_add_by_io(&v, &io, val, &last);
				if (settle("add", r != SIZE_MAX, live && !known)) { for (auto &e : m) if (e.second.first == r) fail("add gave \"%.40s\" the record of \"%.40s\"", k.c_str(), e.first.c_str()); m[k] = { r, val }; }
				break;
			case 4: case 5:
				r = form == 0 ? map_reserve(&v, k.c_str()) : form == 1 ? map_reserve_by_utf8(&v, k32.c_str()) : map_reserve_by_io(&v, &io, &last);
				if (settle("reserve", r != SIZE_MAX, live)) { if (known) { if (r != it->second.first) fail("reserve of a known name answered %zu, not %zu", r, it->second.first); } else { for (auto &e : m) if (e.second.first == r) fail("reserve gave a record away twice"); m[k] = { r, ITEM_MAX }; } }
				break;
			case 6: case 7:
				r = form == 0 ? map_set(&v, k.c_str(), val) : form == 1 ? map_set_by_utf8(&v, k32.c_str(), val) : map_set_by_io(&v, &io, val, &last);
				if (settle("set", r != SIZE_MAX, live && known)) { it->second.second = val; if (r != it->second.first) fail("set answered %zu, not %zu", r, it->second.first); }
				looked_up = true;
				break;
			case 8: case 9:
				g = form == 0 ? map_get(&v, k.c_str()) : form == 1 ? map_get_by_utf8(&v, k32.c_str()) : map_get_by_io(&v, &io, &last);
				if (g != (known ? it->second.second : ITEM_MAX) && !(g == ITEM_MAX && refused())) fail("get of \"%.40s\" answered %lld, not %lld", k.c_str(), g, known ? it->second.second : ITEM_MAX);
				looked_up = true;
				break;
			case 10:
				r = form == 0 ? map_get_index(&v, k.c_str()) : form == 1 ? map_get_index_by_utf8(&v, k32.c_str()) : map_get_index_by_io(&v, &io, &last);
				if (r != (known ? it->second.first : SIZE_MAX) && !(r == SIZE_MAX && refused())) fail("get_index of \"%.40s\" answered %zu", k.c_str(), r);
				looked_up = true;
				break;
			case 11:
			{
				if (form == 2) break;
				size_t i = known && b % 3 ? it->second.first : SIZE_MAX - (size_t)b % 2;
				int q = map_set_by_index(&v, i, val);
				if (settle("set_by_index", q == 0, live && i < SIZE_MAX - 1)) it->second.second = val;
				if (map_add(&v, "", 1) != SIZE_MAX || map_get(&v, "") != ITEM_MAX || map_to_string(&v, SIZE_MAX)) fail("an empty name or a record out of range was accepted");
				break;
			}
		}
		if (form == 2)
		{
			if (live && c % 12 != 11 && !refused() && last != ';') fail("the character behind the name is %lx", (unsigned long)last);
			in_clear(&io);
		}
		if (live && looked_up && !refused()) { const char *s = map_last_read(&v); if (!s || k != s) fail("last_read is \"%.40s\", not \"%.40s\"", s ? s : "(null)", k.c_str()); }
		if (refused() || c % 8 == 0) same_all();
	}
	if (!bad) same_all();
	start();
	if (!bad) settle("clear", map_clear(&v) == 0, live);
	return 0;
}

/* --------------------------------------------------------------------------------------------------- hash */

static int do_hash(ops_t &o, long alloc)
{
	start();
	hash v = hash_create((size_t)alloc);
	struct rec { size_t index; std::vector<ll> val; };
	std::map<ll, rec> m;
	bool live = hash_is_correct(&v);
	settle("create", live, true);
	auto same_all = [&]() {
		for (auto &e : m)
		{
			if (hash_get_index(&v, e.first) != e.second.index) { fail("key %lld is found at %zu, model %zu", e.first, hash_get_index(&v, e.first), e.second.index); return; }
			if (hash_get_key(&v, e.second.index) != e.first) { fail("record %zu has the key %lld, model %lld", e.second.index, (ll)hash_get_key(&v, e.second.index), e.first); return; }
			if (hash_get_amount(&v, e.first) != e.second.val.size()) { fail("key %lld has %zu values, model %zu", e.first, hash_get_amount(&v, e.first), e.second.val.size()); return; }
			for (size_t i = 0; i < e.second.val.size(); i++) if (hash_get(&v, e.first, i) != e.second.val[i]) { fail("value %zu of key %lld is %lld, model %lld", i, e.first, (ll)hash_get(&v, e.first, i), e.second.val[i]); return; }
			if (hash_get(&v, e.first, e.second.val.size()) != ITEM_MAX) { fail("key %lld has one value too many", e.first); return; }
		}
	};
	long c, a, b, d;
	while (o.next(c, a, b, d))
	{
		static const ll base[] = { 0, 1, 255, 256, 257, 512, -1, -256, 65536, 7, 263, 519, 775, 1LL << 40 };
		const ll k = base[(size_t)a % 14] + (a % 7 == 0 ? 256 * (a / 14 % 9) : 0);
		auto it = m.find(k);
		const bool known = it != m.end();
		const size_t amount = known ? it->second.val.size() : 0;
		const size_t num = place(d, amount);
		const ll val = value_of(b);
		const double dv = double_of(b);
		ll bits; memcpy(&bits, &dv, 8);
		switch (c % 12)
		{
			case 0: case 1: case 2: case 3:
			{
				size_t r = hash_add(&v, k, (size_t)b % 6);
				if (settle("add", r != SIZE_MAX, live && !known))
				{
					for (auto &e : m) if (e.second.index == r) fail("add gave key %lld the record of %lld", k, e.first);
					m[k] = { r, std::vector<ll>((size_t)b % 6) };
				}
				break;
			}
			case 4: { size_t r = hash_set(&v, k, num, val); if (settle("set", r != SIZE_MAX, num < amount)) { it->second.val[num] = val; if (r != it->second.index) fail("set answered %zu", r); } break; }
			case 5: { size_t r = hash_set_double(&v, k, num, dv); if (settle("set_double", r != SIZE_MAX, num < amount)) { it->second.val[num] = bits; if (r != it->second.index) fail("set_double answered %zu", r); } break; }
			case 6: { size_t r = hash_set_int64(&v, k, num, val); if (settle("set_int64", r != SIZE_MAX, num < amount)) { it->second.val[num] = val; if (r != it->second.index) fail("set_int64 answered %zu", r); } break; }
			case 7: { ll r = hash_get(&v, k, num), e = num < amount ? it->second.val[num] : ITEM_MAX; if (r != e) fail("get answered %lld, not %lld", r, e); break; }
			case 8: { double r = hash_get_double(&v, k, num), e = DBL_MAX; if (num < amount && it->second.val[num] != LLONG_MAX) memcpy(&e, &it->second.val[num], 8); if (!same(r, e)) fail("get_double answered %g, not %g", r, e);
				ll q = hash_get_int64(&v, k, num), f = num < amount ? it->second.val[num] : LLONG_MAX; if (q != f) fail("get_int64 answered %lld, not %lld", q, f); break; }
			case 9: case 10: { int r = hash_remove(&v, k); if (settle("remove", r == 0, known)) m.erase(k); break; }
			case 11: { size_t r = hash_get_index(&v, k); if (r != (known ? it->second.index : SIZE_MAX)) fail("get_index answered %zu", r); if (hash_get_amount(&v, k) != amount) fail("get_amount answered %zu, not %zu", hash_get_amount(&v, k), amount); break; }
		}
		if (refused() || c % 8 == 0) same_all();
	}
	if (!bad) same_all();
	start();
	if (!bad && !live && vector_is_correct(&v)) vector_clear(&v);
	else if (!bad) settle("clear", hash_clear(&v) == 0, live);
	return 0;
}

/* --------------------------------------------------------------------------------------------------- tree */

struct tn { size_t index; ll type; std::vector<ll> args; std::vector<tn *> ch; tn *up; };

static int do_tree(ops_t &o, long alloc)
{
	start();
	vector v = vector_create((size_t)alloc);
	const long made = sim_alloc_failed_now();
	node_vector nv = node_vector_create();
	const bool nlive = sim_alloc_failed_now() == made;
	bool bound = false;
	std::vector<tn *> nvm;
	std::vector<std::unique_ptr<tn>> all;
	std::vector<tn *> nodes;             /* reachable ones */
	tn *tail = nullptr;                  /* the node whose arguments end the tree: only it can get more of them */
	if (!settle("create", vector_is_correct(&v), true) ) { vector_clear(&v); node_vector_clear(&nv); return 0; }
	node root = node_get_root(&v);
	if (!settle("get_root", node_is_correct(&root) && vector_size(&v) == 3, true))
	{
		if (node_is_correct(&root) && vector_size(&v) != 3) fail("get_root answered a root that is not there");
		vector_clear(&v); node_vector_clear(&nv);
		return 0;
	}
	auto make = [&](size_t i, ll t, tn *up) { all.emplace_back(new tn{ i, t, {}, {}, up }); nodes.push_back(all.back().get()); return all.back().get(); };
	tn *mr = make(0, ITEM_MAX, nullptr);
	tail = mr;
	auto at = [&](const tn *t) { node nd = { &v, t->index }; return nd; };
	auto number = [&](const tn *t) { size_t i = 0; while (t->up->ch[i] != t) i++; return i; };
	std::vector<const tn *> order;
	auto same_all = [&]() {
		order.clear();
		std::vector<const tn *> st{ mr };
		while (!st.empty()) { const tn *t = st.back(); st.pop_back(); order.push_back(t); for (size_t i = t->ch.size(); i--;) st.push_back(t->ch[i]); }
		node walk = at(mr);
		for (size_t k = 0; k < order.size(); k++)
		{
			const tn *t = order[k];
			const node nd = at(t);
			if (k && node_set_next(&walk)) { fail("the traversal ends after %zu of %zu nodes", k, order.size()); return; }
			if (node_save(&walk) != t->index) { fail("node %zu of the traversal is %zu, model %zu", k, node_save(&walk), t->index); return; }
			if (node_get_type(&nd) != t->type) { fail("type of node %zu is %lld, model %lld", t->index, (ll)node_get_type(&nd), t->type); return; }
			if (node_get_argc(&nd) != t->args.size()) { fail("node %zu has %zu arguments, model %zu", t->index, node_get_argc(&nd), t->args.size()); return; }
			for (size_t i = 0; i < t->args.size(); i++) if (node_get_arg(&nd, i) != t->args[i]) { fail("argument %zu of node %zu is %lld, model %lld", i, t->index, (ll)node_get_arg(&nd, i), t->args[i]); return; }
			if (node_get_amount(&nd) != t->ch.size()) { fail("node %zu has %zu children, model %zu", t->index, node_get_amount(&nd), t->ch.size()); return; }
			for (size_t i = 0; i < t->ch.size(); i++) { node x = node_get_child(&nd, i); if (node_save(&x) != t->ch[i]->index) { fail("child %zu of node %zu is %zu, model %zu", i, t->index, node_save(&x), t->ch[i]->index); return; } }
			node p = node_get_parent(&nd);
			if (t->up ? !node_is_correct(&p) || node_save(&p) != t->up->index : node_is_correct(&p)) { fail("parent of node %zu is %zu", t->index, node_save(&p)); return; }
			node ld = node_load(&v, t->index);
			if (node_save(&ld) != t->index) { fail("node %zu cannot be loaded", t->index); return; }
		}
		if (node_set_next(&walk) != -1) fail("the traversal goes on behind the last node");
		if (node_vector_size(&nv) != nvm.size()) fail("the node vector has %zu nodes, model %zu", node_vector_size(&nv), nvm.size());
	};
	long c, a, b, d;
	while (o.next(c, a, b, d))
	{
		tn *t = nodes[(size_t)a % nodes.size()];
		if (a % 3 == 0) t = nodes.back();
		if (c % 20 >= 5 && c % 20 <= 7 && d % 4) t = tail ? tail : t;
		node nd = at(t);
		const ll val = value_of(b);
		const double dv = double_of(b);
		ll bits; memcpy(&bits, &dv, 8);
		switch (c % 20)
		{
			case 0: case 1: case 2: case 3: case 4:
			{
				if (nodes.size() > 60) break;
				node ch = node_add_child(&nd, b);
				if (settle("add_child", node_is_correct(&ch), true)) { tn *x = make(node_save(&ch), b, t); t->ch.push_back(x); tail = x; }
				break;
			}
			case 5: case 6: case 7:
			{
				if (t != tail && t->ch.empty()) break;      /* its arguments are not at the end of the tree */
				int r = c % 20 == 5 ? node_add_arg(&nd, val) : c % 20 == 6 ? node_add_arg_double(&nd, dv) : node_add_arg_int64(&nd, val);
				if (!t->ch.empty()) { if (r != -2) fail("add_arg to a node with children answered %d", r); break; }
				if (settle("add_arg", r == 0, true)) t->args.push_back(c % 20 == 6 ? bits : val);
				break;
			}
			case 8: { int r = node_set_type(&nd, b); if (settle("set_type", r == 0, t != mr)) t->type = b; break; }
			case 9: { size_t i = place(d, t->args.size()); int r = node_set_arg(&nd, i, val); if (settle("set_arg", r == 0, i < t->args.size())) t->args[i] = val; break; }
			case 10: { size_t i = place(d, t->args.size()); size_t r = node_set_arg_double(&nd, i, dv); if (settle("set_arg_double", r != SIZE_MAX, i < t->args.size())) t->args[i] = bits; break; }
			case 11: { size_t i = place(d, t->args.size()); size_t r = node_set_arg_int64(&nd, i, val); if (settle("set_arg_int64", r != SIZE_MAX, i < t->args.size())) t->args[i] = val; break; }
			case 12:
			{
				size_t i = place(d, t->args.size());
				ll r = node_get_arg(&nd, i), e = i < t->args.size() ? t->args[i] : ITEM_MAX;
				if (r != e) fail("get_arg(%zu) answered %lld, not %lld", i, r, e);
				ll q = node_get_arg_int64(&nd, i), f = i < t->args.size() ? t->args[i] : LLONG_MAX;
				if (q != f) fail("get_arg_int64(%zu) answered %lld, not %lld", i, q, f);
				double g = node_get_arg_double(&nd, i), h = DBL_MAX;
				if (i < t->args.size() && t->args[i] != LLONG_MAX) memcpy(&h, &t->args[i], 8);
				if (!same(g, h)) fail("get_arg_double(%zu) answered %g, not %g", i, g, h);
				node x = node_get_child(&nd, t->ch.size() + (size_t)d % 2);
				if (node_is_correct(&x)) fail("a child behind the last one");
				break;
			}
			case 13: case 14:
			{
				if (nodes.size() > 60) break;
				const size_t argc = (size_t)d % 4;
				node x = node_insert(&nd, b, argc);
				if (settle("insert", node_is_correct(&x), t != mr))
				{
					const size_t i = number(t);
					tn *p = t->up, *y = make(node_save(&x), b, p);
					y->args.resize(argc);
					y->ch.push_back(t);
					p->ch[i] = y;
					t->up = y;
					tail = nullptr;
				}
				break;
			}
			case 15: case 16:
			{
				tn *u = nodes[(size_t)b % nodes.size()];
				bool kin = false;
				for (tn *x = t; x; x = x->up) kin |= x == u;
				for (tn *x = u; x; x = x->up) kin |= x == t;
				if (kin && t != mr && u != mr) break;
				node nu = at(u);
				int r = c % 20 == 15 ? node_swap(&nd, &nu) : node_order(&nd, &nu);
				if (!settle(c % 20 == 15 ? "swap" : "order", r == 0, t != mr && u != mr)) break;
				const size_t i = number(t), j = number(u);
				std::swap(t->up->ch[i], u->up->ch[j]);
				std::swap(t->up, u->up);
				if (c % 20 == 16) { std::swap(t->ch, u->ch); for (tn *x : t->ch) x->up = t; for (tn *x : u->ch) x->up = u; }
				break;
			}
			case 17:
			{
				if (d % 2) break;
				node x = nd;
				int r = node_remove(&x);
				if (!settle("remove", r == 0, t != mr)) break;
				if (node_is_correct(&x)) fail("a removed node is still good");
				t->up->ch.erase(t->up->ch.begin() + (long)number(t));
				std::vector<tn *> gone{ t };
				for (size_t i = 0; i < gone.size(); i++) for (tn *y : gone[i]->ch) gone.push_back(y);
				for (tn *g : gone)
				{
					nodes.erase(std::find(nodes.begin(), nodes.end(), g));
					for (size_t i = nvm.size(); i--;) if (nvm[i] == g) { nvm[i] = mr; node_vector_set(&nv, i, &root); }
				}
				tail = nullptr;
				break;
			}
			case 18:
			{
				if (nvm.size() > 40) break;
				size_t r = node_vector_add(&nv, &nd);
				bound = true;
				if (settle("node_vector_add", r != SIZE_MAX, nlive)) { if (r != nvm.size()) fail("node_vector_add answered %zu", r); nvm.push_back(t); }
				break;
			}
			case 19:
			{
				size_t i = place(d, nvm.size());
				if (!bound) break;
				node x = node_vector_get(&nv, i);
				if (i < nvm.size() ? node_save(&x) != nvm[i]->index : node_is_correct(&x)) fail("node_vector_get(%zu) answered %zu", i, node_save(&x));
				int r = node_vector_set(&nv, i, &nd);
				if (settle("node_vector_set", r == 0, i < nvm.size())) nvm[i] = t;
				break;
			}
		}
		if (!bad && (refused() || c % 4 == 0)) same_all();
	}
	if (!bad) same_all();
	vector_clear(&v);
	node_vector_clear(&nv);
	return 0;
}

/* ----------------------------------------------------------------------------------- storage of the macros */

static int do_storage(ops_t &o)
{
	start();
	storage v = storage_create();
	struct rec { size_t index; string value; bool set; size_t args; };
	std::map<string, rec> m;
	if (refused()) { storage_clear(&v); return 0; }
	auto same_all = [&]() {
		for (auto &e : m)
		{
			start();
			size_t i = storage_get_index(&v, e.first.c_str());
			if (i != e.second.index && !refused()) { fail("\"%.40s\" is found at %zu, model %zu", e.first.c_str(), i, e.second.index); return; }
			const char *s = storage_get_by_index(&v, e.second.index);
			if (!s != !e.second.set || (s && e.second.value != s)) { fail("value of \"%.40s\" is \"%.40s\", model \"%.40s\"", e.first.c_str(), s ? s : "(null)", e.second.set ? e.second.value.c_str() : "(null)"); return; }
			if (storage_get_args_by_index(&v, e.second.index) != e.second.args) { fail("\"%.40s\" has %zu arguments, model %zu", e.first.c_str(), storage_get_args_by_index(&v, e.second.index), e.second.args); return; }
			const char *n = storage_to_string(&v, e.second.index);
			if (!n || e.first != n) { fail("record %zu is named \"%.40s\", model \"%.40s\"", e.second.index, n ? n : "(null)", e.first.c_str()); return; }
		}
	};
	long c, a, b, d;
	while (o.next(c, a, b, d))
	{
		const std::u32string k32 = key_of(a);
		const string k = utf8_of(k32);
		string val = utf8_of(text_of(b, d));
		if (b % 11 == 0) val.clear();
		if (b % 7 == 0) for (int i = 0; i < 6; i++) val += val;       /* the text store has to grow */
		auto it = m.find(k);
		const bool known = it != m.end();
		const int form = (int)(d % 3);
		switch (c % 12)
		{
			case 0: case 1: case 2:
			{
				size_t r;
				if (form == 2)
				{
					bool ok;
					const string source = k + ";tail";
					universal_io io = io_of(source, ok);
					r = storage_add_by_io(&v, &io);
					if (!refused() && uni_scan_char(&io) != ';') fail("the character behind the name was lost");
					in_clear(&io);
				}
				else r = form ? storage_add_by_utf8(&v, k32.c_str()) : storage_add(&v, k.c_str());
				if (settle("add", r != SIZE_MAX, !known))
				{
					for (auto &e : m) if (e.second.index == r) fail("add gave \"%.40s\" the record of \"%.40s\"", k.c_str(), e.first.c_str());
					m[k] = { r, "", false, 0 };
				}
				break;
			}
			case 3: case 4: case 5:
			{
				if (!known) break;
				size_t r = storage_set_by_index(&v, it->second.index, val.c_str());
				if (settle("set", r != SIZE_MAX, true)) { it->second.value = val; it->second.set = !val.empty(); }
				else if (!storage_get_by_index(&v, it->second.index)) it->second.set = false;       /* refused: the old value or none */
				break;
			}
			case 6: { if (!known) break; size_t r = storage_set_args_by_index(&v, it->second.index, (size_t)b % 9); if (settle("set_args", r != SIZE_MAX, true)) it->second.args = (size_t)b % 9; break; }
			case 7: case 8:
			{
				int r = storage_remove_by_index(&v, known ? it->second.index : SIZE_MAX);
				if (settle("remove", r == 0, known)) m.erase(it);
				break;
			}
			case 9: { size_t r = form ? storage_get_index_by_utf8(&v, k32.c_str()) : storage_get_index(&v, k.c_str()); if (r != (known ? it->second.index : SIZE_MAX) && !(r == SIZE_MAX && refused())) fail("get_index of \"%.40s\" answered %zu", k.c_str(), r); break; }
			case 10:
			{
				bool ok;
				const string source = k + "+1";
				universal_io io = io_of(source, ok);
				size_t r = storage_search(&v, &io);
				if (r != (known ? it->second.index : SIZE_MAX) && !(r == SIZE_MAX && refused())) fail("search for \"%.40s\" answered %zu", k.c_str(), r);
				if (!refused())
				{
					if (uni_scan_char(&io) != '+') fail("the character behind the name was lost");
					const char *s = storage_last_read(&v);
					if (!s || k != s) fail("last_read is \"%.40s\", not \"%.40s\"", s ? s : "(null)", k.c_str());
				}
				in_clear(&io);
				break;
			}
			case 11: same_all(); break;
		}
		if (!bad && (refused() || c % 8 == 0)) same_all();
	}
	if (!bad) same_all();
	storage_clear(&v);
	return 0;
}

/* --------------------------------------------------------------------------------------------- streams
 * the same text behind a file and behind a buffer: scanning, going back, positions and printing must not tell them apart,
 * and a file whose reads or writes failed must say so when it is closed */

static bool decode(const string &t, size_t at, char32_t &c, size_t &n)
{
	if (at >= t.size()) return false;
	unsigned char b = (unsigned char)t[at];
	n = b < 0x80 ? 1 : (b & 0xE0) == 0xC0 ? 2 : (b & 0xF0) == 0xE0 ? 3 : (b & 0xF8) == 0xF0 ? 4 : 1;
	c = n == 1 ? b : b & (0xFF >> (n + 1));
	if (at + n > t.size()) return false;
	for (size_t i = 1; i < n; i++) c = c << 6 | (t[at + i] & 0x3F);
	return true;
}

static int do_input(ops_t &o)
{
	size_t n = 0;
	const char *p = sim_file("/w/in", &n);
	const string text(p ? p : "", n);
	universal_io f = io_create(), b = io_create();
	start();
	if (in_set_file(&f, "/w/in")) { if (!sim_faults_on("open", "/w/in")) fail("in_set_file failed"); io_erase(&f); return 0; }
	if (in_set_buffer(&b, text.c_str())) { fail("in_set_buffer failed"); io_erase(&f); return 0; }
	size_t pos = 0;
	universal_io *A = &f, *B = &b;
	std::vector<size_t> marks{ 0 };
	for (size_t i = 0; i < text.size(); ) { char32_t c; size_t k; if (!decode(text, i, c, k)) break; i += k; marks.push_back(i); }
	char32_t last = 0;
	bool can_unscan = false;
	const string limit(text.size() * 4 + 64, 0);
	long c, a, x, d;
	auto faulted = [&]() { return sim_faults_on("read", "/w/in") + sim_faults_on("seek", "/w/in") > 0; };
	bool off = false;              /* a fault made the stream differ from the text: closing it must say so */
	#define fail(...) (faulted() ? (void)(off = true) : ::fail(__VA_ARGS__))
	while (o.next(c, a, x, d))
	{
		const bool keep = can_unscan;
		can_unscan = false;
		switch (c % 18)
		{
			case 0: case 1: case 2: case 3: case 4: case 5:
			{
				char32_t e = (char32_t)EOF;
				size_t k = 0;
				const bool have = decode(text, pos, e, k);
				char32_t r = uni_scan_char(A), q = uni_scan_char(B);
				if (!have) e = (char32_t)EOF;
				if (r != e || q != e) { fail("scan_char at %zu answered %lx and %lx, not %lx", pos, (unsigned long)r, (unsigned long)q, (unsigned long)e); break; }
				if (have) { pos += k; last = e; can_unscan = true; }
				break;
			}
			case 6: case 7:
			{
				if (!keep) break;
				int r = uni_unscan_char(A, last), q = uni_unscan_char(B, last);
				if (r || q) { fail("unscan_char at %zu answered %d and %d", pos, r, q); break; }
				pos = *(std::lower_bound(marks.begin(), marks.end(), pos) - 1);
				break;
			}
			case 8: case 9:
			{
				const size_t to = d % 8 == 0 ? text.size() + 1 + (size_t)a % 5 : marks[(size_t)a % marks.size()];
				int r = in_set_position(A, to), q = in_set_position(B, to), e = to <= text.size() ? 0 : -1;
				if (r != e || q != e) { fail("set_position(%zu of %zu) answered %d and %d", to, text.size(), r, q); break; }
				if (!e) pos = to;
				break;
			}
			case 10:
			{
				const size_t i = (size_t)(std::upper_bound(marks.begin(), marks.end(), pos) - marks.begin()) - 1;
				const size_t to = marks[i - std::min(i, (size_t)a % 6)];
				const string back = text.substr(to, pos - to);
				if (back.find('\0') != string::npos) break;
				int r = uni_unscan(A, back.c_str()), q = uni_unscan(B, back.c_str());
				if (r || q) { fail("unscan of %zu bytes at %zu answered %d and %d", back.size(), pos, r, q); break; }
				pos = to;
				break;
			}
			case 11: case 12:
			{
				string u = limit, v = limit;
				size_t r = c % 18 == 11 ? uni_scan_identifier(A, &u[0]) : uni_scan_number(A, &u[0]);
				size_t q = c % 18 == 11 ? uni_scan_identifier(B, &v[0]) : uni_scan_number(B, &v[0]);
				if (r != q) { fail("scan of a %s at %zu answered %zu and %zu", c % 18 == 11 ? "name" : "number", pos, r, q); break; }
				if (u.substr(0, r) != v.substr(0, q) || (r && u.substr(0, r) != text.substr(pos, r))) { fail("scan of a %s at %zu answered \"%.30s\" and \"%.30s\"", c % 18 == 11 ? "name" : "number", pos, u.c_str(), v.c_str()); break; }
				if (c % 18 == 11)
				{
					size_t k, e = pos;
					char32_t y;
					if (decode(text, e, y, k) && utf8_is_letter(y)) while (decode(text, e, y, k) && (utf8_is_letter(y) || utf8_is_digit(y))) e += k;
					if (r != e - pos) { fail("the name at %zu has %zu bytes, model %zu", pos, r, e - pos); break; }
				}
				pos += r;
				break;
			}
			case 13: in_swap(A, B); std::swap(A, B); break;
			case 14:
				if (!in_is_file(A) || in_is_buffer(A) || !in_is_buffer(B) || in_is_file(B) || !in_is_correct(A) || !in_is_correct(B) || in_is_func(A) || in_is_func(B)) fail("the streams do not know what they are");
				break;
			case 16:
			{
				long long u = -7, v = -7;
				int r, q;
				switch (d % 4)
				{
					case 0: r = uni_scanf(A, "%lld", &u); q = uni_scanf(B, "%lld", &v); break;
					case 1: r = uni_scanf(A, "%llx", &u); q = uni_scanf(B, "%llx", &v); break;
					case 2: r = uni_scanf(A, "%llo", &u); q = uni_scanf(B, "%llo", &v); break;
					default: r = uni_scanf(A, " %lld", &u); q = uni_scanf(B, " %lld", &v); break;
				}
				if (r != q || u != v || in_get_position(A) != in_get_position(B)) { fail("scanf of an integer at %zu answered %d (%lld) up to %zu and %d (%lld) up to %zu", pos, r, u, in_get_position(A), q, v, in_get_position(B)); break; }
				pos = in_get_position(B);
				break;
			}
			case 17:
			{
				char u[3][128] = { "", "", "" }, v[3][128] = { "", "", "" };
				int r, q;
				switch (d % 3)
				{
					case 0: r = uni_scanf(A, "%99[01]", u[0]); q = uni_scanf(B, "%99[01]", v[0]); break;
					case 1: r = uni_scanf(A, "%1[a-z]%1[^,]", u[0], u[1]); q = uni_scanf(B, "%1[a-z]%1[^,]", v[0], v[1]); break;
					default: r = uni_scanf(A, "%40s%c%3s", u[0], &u[1][0], u[2]); q = uni_scanf(B, "%40s%c%3s", v[0], &v[1][0], v[2]); break;
				}
				if (r != q || memcmp(u, v, sizeof u) || in_get_position(A) != in_get_position(B)) { fail("scanf %ld at %zu answered %d (%.20s, %.20s, %.20s) up to %zu and %d (%.20s, %.20s, %.20s) up to %zu", d % 3, pos, r, u[0], u[1], u[2], in_get_position(A), q, v[0], v[1], v[2], in_get_position(B)); break; }
				pos = in_get_position(B);
				if (!std::binary_search(marks.begin(), marks.end(), pos)) { in_set_position(A, 0); in_set_position(B, 0); pos = 0; }
				break;
			}
			case 15:
				if (d % 4) break;
				in_clear(B);
				in_set_buffer(B, text.c_str());
				if (in_clear(A)) { if (!sim_faults_on("close", "/w/in")) fail("in_clear failed"); io_erase(A); io_erase(B); return 0; }
				if (in_set_file(A, "/w/in")) { if (!sim_faults_on("open", "/w/in")) fail("in_set_file failed"); io_erase(A); io_erase(B); return 0; }
				pos = 0;
				if (faulted()) { io_erase(A); io_erase(B); return 0; }
				break;
		}
		if (bad || off) break;
		if (in_get_position(A) != pos || in_get_position(B) != pos) fail("operation %ld left the positions %zu and %zu, model %zu", c % 18, in_get_position(A), in_get_position(B), pos);
	}
	start();
	#undef fail
	const bool hurt = off && !sim_faults_on("seek", "/w/in");
	int r = io_erase(in_is_file(A) ? A : B), q = io_erase(in_is_buffer(A) ? A : B);
	if (!bad && q) fail("a buffer could not be closed");
	if (!bad && hurt && !r) fail("a file with a failed read was closed without a word");
	if (!bad && r && !faulted() && !sim_faults_on("close", "/w/in")) fail("closing the file failed");
	return 0;
}

static string user_text;
static int user_out(const char *const format, va_list args)
{
	char t[4096];
	int n = vsnprintf(t, sizeof t, format, args);
	if (n > 0) user_text.append(t, (size_t)n);
	return n;
}

static int do_output(ops_t &o, long size)
{
	universal_io f = io_create(), b = io_create(), u = io_create();
	start();
	user_text.clear();
	string mf, mb;
	bool fl = out_set_file(&f, "/w/out") == 0;
	if (!fl && !sim_faults_on("open", "/w/out")) fail("out_set_file failed");
	bool bl = settle("set_buffer", out_set_buffer(&b, (size_t)size) == 0, true);
	if (out_set_func(&u, &user_out)) fail("out_set_func failed");
	auto faulted = [&]() { return sim_faults_on("write", "/w/out") + sim_faults_on("seek", "/w/out") > 0; };
	long c, a, x, d;
	while (o.next(c, a, x, d))
	{
		const string s = utf8_of(text_of(a, x));
		const double dv = double_of(x);
		char t[4096];
		int n = 0, rf = 0, rb = 0, ru = 0;
#define PRINT(...) (n = snprintf(t, sizeof t, __VA_ARGS__), ru = uni_printf(&u, __VA_ARGS__), rf = uni_printf(&f, __VA_ARGS__), rb = uni_printf(&b, __VA_ARGS__))
		bool print = true;
		switch (c % 12)
		{
			case 0: case 1: PRINT("%s", s.c_str()); break;
			case 2: PRINT("%" PRIitem " ", (item_t)value_of(a)); break;
			case 3: PRINT("x%04x%c\n", (unsigned)a, 'a' + (int)(x % 26)); break;
			case 4: PRINT("%zu:%s;%i", (size_t)a, s.substr(0, s.find_first_of('\n')).c_str(), (int)x); break;
			case 5: PRINT("%lf %g", a % 2 ? 1.5 : 0.0, std::isfinite(dv) ? dv : 2.0); break;
			case 6: PRINT("}\n"); break;
			case 7: case 8:
			{
				const char32_t ch = LETTERS[(size_t)a % 20];
				const string e = utf8_of(std::u32string(1, ch));
				n = snprintf(t, sizeof t, "%s", e.c_str());
				ru = uni_print_char(&u, ch); rf = uni_print_char(&f, ch); rb = uni_print_char(&b, ch);
				break;
			}
			case 9:
			{
				print = false;
				if (!bl || x % 3) break;
				char *e = out_extract_buffer(&b);
				if (!e || mb != e) { fail("the buffer holds \"%.40s\" (%zu bytes), model %zu bytes", e ? e : "(null)", e ? strlen(e) : 0, mb.size()); }
				sim_free(e);
				mb.clear();
				if (out_is_correct(&b) || out_extract_buffer(&b)) fail("the buffer is still there after it was extracted");
				start();
				bl = settle("set_buffer", out_set_buffer(&b, (size_t)a % 5) == 0, true);
				break;
			}
			case 10: print = false; if (out_is_file(&f) != fl || out_is_buffer(&b) != bl || !out_is_func(&u)) fail("the streams do not know what they are"); break;
			case 11: print = false; out_swap(&f, &b); out_swap(&b, &u); out_swap(&f, &u); out_swap(&b, &u); break;       /* f u b -> back where they were, in four steps */
		}
		if (!print || bad) continue;
		if (ru != n) fail("a user function answered %d, printf answered %d", n, ru);
		if (settle("print to a buffer", rb == n, bl)) mb.append(t, (size_t)n);
		else if (!bad && rb >= 0) fail("a refused print answered %d", rb);
		if (fl)
		{
			mf.append(t, (size_t)n);
			if (rf != n && !faulted()) fail("print to a file answered %d, not %d", rf, n);
		}
		else if (rf >= 0) fail("print to nothing answered %d", rf);
	}
	start();
	if (!bad && bl) { char *e = out_extract_buffer(&b); if (!e || mb != e) fail("the buffer holds \"%.40s\" (%zu bytes), model %zu bytes", e ? e : "(null)", e ? strlen(e) : 0, mb.size()); sim_free(e); }
	int r = io_erase(&f);
	io_erase(&b);
	io_erase(&u);
	if (bad || !fl) return 0;
	size_t n = 0;
	const char *p = sim_file("/w/out", &n);
	const bool whole = p && mf == string(p, n);
	if (!r && !whole) fail("closing reports success but the file holds %zu of %zu bytes", n, mf.size());
	if (r && !faulted() && !sim_faults_on("close", "/w/out")) fail("closing the file failed");
	return 0;
}


/* the same file always gets the same name: no empty, "." or "x/.." parts */
static string plain_path(const string &p)
{
	const bool root = p[0] == '/' || p[0] == '\\';
	std::vector<string> parts;
	string c;
	for (size_t i = 0; i <= p.size(); i++)
	{
		const char ch = i < p.size() ? p[i] == '\\' ? '/' : p[i] : '/';
		if (ch != '/') { c += ch; continue; }
		if (c == "..") { if (!parts.empty() && parts.back() != "..") parts.pop_back(); else if (!root) parts.push_back(c); }
		else if (!c.empty() && c != ".") parts.push_back(c);
		c.clear();
	}
	string r = root ? "/" : "";
	for (size_t i = 0; i < parts.size(); i++) r += (i ? "/" : "") + parts[i];
	return r.empty() ? "." : r;
}

static string path_of(long a, long b, bool &there)
{
	/* /w/f0 ... /w/f3 and /w/d/f0 ... /w/d/f3 are there */
	const string name = "f" + std::to_string(a % 5);
	there = a % 5 < 4;
	const string d = a / 8 % 2 ? "d/" : "";
	string r;
	switch (b % 12)
	{
		case 0: case 1: case 2: r = d + name; break;
		case 3: r = "/w/" + d + name; break;
		case 4: r = "./" + d + name; break;
		case 5: r = d + "x/../" + name; break;
		case 6: r = "d//../" + d + "././/" + name; break;
		case 7: r = "../w/" + d + name; break;
		case 8: r = "/../w/" + d + name; break;
		case 9: r = "x/y/../../" + d + name; break;
		case 10: r = d + name; std::replace(r.begin(), r.end(), '/', '\\'); break;
		case 11: for (long i = 0; i < (b / 12 % 3 ? 450 : 550); i++) r += "./"; r += d + name; there = there && b / 12 % 3; break;
	}
	return r;
}

static int do_workspace(ops_t &o)
{
	start();
	workspace w = ws_create();
	std::vector<string> files, dirs, flags;
	string out;
	bool good = settle("create", ws_is_correct(&w), true);
	auto same = [&](const char *what, const std::vector<string> &m, size_t n, const char *(*get)(const workspace *, size_t)) {
		if (n != (good ? m.size() : 0)) { fail("%zu %s, model %zu", n, what, good ? m.size() : 0); return; }
		for (size_t i = 0; i < n; i++) { const char *t = get(&w, i); if (!t || m[i] != t) { fail("%s %zu is \"%.60s\", model \"%.60s\"", what, i, t ? t : "(null)", m[i].c_str()); return; } }
		if (get(&w, n) || get(&w, SIZE_MAX)) fail("%s beyond the last", what);
	};
	auto same_all = [&]() {
		if (bad) return;
		if (ws_is_correct(&w) != good) { fail("the workspace is %s, model %s", good ? "wrong" : "right", good ? "right" : "wrong"); return; }
		same("files", files, ws_get_files_num(&w), (const char *(*)(const workspace *, size_t))&ws_get_file);
		same("dirs", dirs, ws_get_dirs_num(&w), (const char *(*)(const workspace *, size_t))&ws_get_dir);
		same("flags", flags, ws_get_flags_num(&w), (const char *(*)(const workspace *, size_t))&ws_get_flag);
		const char *t = ws_get_output(&w);
		if (!good || out.empty() ? t != nullptr : !t || out != t) fail("the output is \"%.60s\", model \"%.60s\"", t ? t : "(null)", out.c_str());
	};
	auto add = [&](const char *what, std::vector<string> &m, const string &v, size_t r, bool valid) {
		const size_t at = (size_t)(std::find(m.begin(), m.end(), v) - m.begin());
		if (!settle(what, r != SIZE_MAX, good && valid)) { good = false; return; }
		if (r != at) fail("%s \"%.60s\" answered %zu, not %zu", what, v.c_str(), r, at);
		if (at == m.size()) m.push_back(v);
	};
	static const char *const FLAGS[] = { "-E", "-c", "-VM", "-LLVM", "-MIPS", "-Wno", "-DA", "-DA=1", "-D\xd1\x91=2", "-O3", "--", "x" };
	auto flag = [&](const string &f) {
		if (f.compare(0, 2, "-I") == 0)
		{
			const string p = f.substr(2);
			const size_t r = ws_add_flag(&w, f.c_str());
			add("add_flag -I", dirs, p.empty() ? "" : plain_path(p), r, !p.empty() && sim_exists(p.c_str()));
		}
		else add("add_flag", flags, f, ws_add_flag(&w, f.c_str()), true);
	};
	long c, a, b, d;
	while (o.next(c, a, b, d))
	{
		bool there = false;
		const string p = path_of(a, b, there);
		/* most of what a host does is right, or nothing would be reached after the first mistake */
		const bool wild = d % 16 == 0;
		switch (c % 12)
		{
			case 0: case 1: case 2: if (!there && !wild) break; add("add_file", files, plain_path(p), ws_add_file(&w, p.c_str()), there); break;
			case 3: { const string q = a % 3 ? p.substr(0, p.find_last_of("/\\") + 1) : "./"; if (q.empty() || (!there && !wild)) break; add("add_dir", dirs, plain_path(q), ws_add_dir(&w, q.c_str()), sim_exists(plain_path(q).c_str()) && q.size() < 1024); break; }
			case 4: case 5: flag(FLAGS[(size_t)a % 12]); break;
			case 6: flag(wild ? "-I/no/such" : a % 2 ? "-Id" : "-I."); break;
			case 7: { const string q = wild ? string(2000, 'o') : p; if (!settle("set_output", ws_set_output(&w, q.c_str()) == 0, good && q.size() < 1024)) good = false; else out = q; break; }
			case 8: { const char *f = FLAGS[(size_t)a % 12]; const bool e = good && std::find(flags.begin(), flags.end(), f) != flags.end(); if (ws_has_flag(&w, f) != e || ws_has_flag(&w, nullptr) || ws_has_flag(nullptr, f)) fail("has_flag %s answered %d", f, !e); break; }
			case 9:
			{
				std::vector<string> all;
				for (long i = 0; i < b % 4; i++) all.push_back(FLAGS[(size_t)(a + i * 5) % 12]);
				std::vector<const char *> q;
				for (auto &f : all) q.push_back(f.c_str());
				const int r = ws_add_flags(&w, q.data() ? q.data() : FLAGS, q.size());
				const bool was = good;
				if (settle("add_flags", r == 0, good || all.empty())) for (auto &f : all) { if (std::find(flags.begin(), flags.end(), f) == flags.end()) flags.push_back(f); }
				else if (was) good = false;
				break;
			}
			case 10: if (wild) { if (ws_add_file(&w, nullptr) != SIZE_MAX) fail("no file was added"); good = false; } break;
			case 11:
				if (d % 8) break;
				ws_clear(&w);
				if (ws_is_correct(&w) || ws_get_files_num(&w)) fail("the workspace is still there after it was cleared");
				start();
				files.clear(); dirs.clear(); flags.clear(); out.clear();
				if (d % 16 < 8) { w = ws_create(); good = settle("create", ws_is_correct(&w), true); }
				else
				{
					/* the same from a command line */
					std::vector<string> v{ "ruc" };
					for (long i = 0; i < 6; i++)
					{
						const long k = (a >> i) + i * 7 + b;
						if (k % 3 == 0) v.push_back("f" + std::to_string(k / 3 % 4));
						else if (k % 3 == 1) v.push_back(FLAGS[(size_t)(k / 3) % 10]);
						else if (k % 2) { v.push_back("-o"); v.push_back("o" + std::to_string(k)); out = v.back(); }
						else v.push_back("-Id");
					}
					std::vector<const char *> q;
					for (auto &f : v) q.push_back(f.c_str());
					w = ws_parse_args((int)q.size(), q.data());
					good = settle("parse_args", ws_is_correct(&w), true);
					for (size_t i = 1; i < v.size(); i++)
					{
						std::vector<string> &m = v[i] == "-Id" ? dirs : v[i][0] == '-' ? flags : files;
						const string t = v[i] == "-Id" ? "d" : v[i];
						if (v[i] == "-o") { i++; continue; }
						if (std::find(m.begin(), m.end(), t) == m.end()) m.push_back(t);
					}
				}
				break;
		}
		if (refused() || d % 4 == 0) same_all();
	}
	same_all();
	ws_clear(&w);
	return 0;
}

extern "C" int job_model(const char *kind, const long *ops, int nops)
{
	bad = false;
	op_no = -1;
	where = kind;
	ops_t o{ ops, nops };
	const char *p = strchr(kind, ':');
	const long alloc = p ? atol(p + 1) : 0;
	where = string(kind, p ? (size_t)(p - kind) : strlen(kind));
	if (where == "vector") return do_vector(o, alloc, false);
	if (where == "stack") return do_vector(o, alloc, true);
	if (where == "strings") return do_strings(o, alloc);
	if (where == "map") return do_map(o, alloc);
	if (where == "hash") return do_hash(o, alloc);
	if (where == "tree") return do_tree(o, alloc);
	if (where == "input") return do_input(o);
	if (where == "output") return do_output(o, alloc);
	if (where == "workspace") return do_workspace(o);
	if (where == "storage") return do_storage(o);
	return -77;
}
