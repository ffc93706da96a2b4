// Executes operation scripts on the real bd::String / bd::Array<T> and records outcomes.
// Script:  "session <type>"  then one operation per line ("op m d s i j n v w x"), "end".
// Every operation prints one JSON line: {"err":..,"ret":..,"post":[..]}.
#define VERIF_TRACK_NEW
#include "common.h"
#include "String.h"
#include "Array.h"
#include "HashTable.h"
#include <list>
#include <sstream>
#include <iterator>
#include <iostream>

using namespace vf;
typedef bd::String Str;

// ---- class element type that knows whether it is alive ----
struct Tracked;
static std::map<const Tracked*, int>* g_live;   // lives outside the tracked session
static bool g_life_bad = false;
struct Tracked {
  int v;
  static bool alive(const Tracked* t) { return g_live->count(t) != 0; }
  void born() { Off off; if (alive(this)) g_life_bad = true; (*g_live)[this] = 1; }
  Tracked() : v(0) { born(); }
  Tracked(int x) : v(x) { born(); }
  Tracked(const Tracked& o) : v(o.v) { if (!alive(&o)) g_life_bad = true; born(); }
  Tracked(Tracked&& o) noexcept : v(o.v) { if (!alive(&o)) g_life_bad = true; o.v = -999; born(); }
  Tracked& operator=(const Tracked& o) { if (!alive(&o) || !alive(this)) g_life_bad = true; v = o.v; return *this; }
  Tracked& operator=(Tracked&& o) noexcept { if (!alive(&o) || !alive(this)) g_life_bad = true; if (this != &o) { v = o.v; o.v = -999; } return *this; }
  ~Tracked() { Off off; if (!alive(this)) g_life_bad = true; g_live->erase(this); }
  bool operator==(const Tracked& o) const { return v == o.v; }
  bool operator!=(const Tracked& o) const { return v != o.v; }
};
namespace std { template<> struct hash<Tracked> { size_t operator()(const Tracked& t) const noexcept { return t.v; } }; }

typedef bd::Array<int> ArrI;
typedef bd::Array<Str> ArrV;
typedef bd::Array<Tracked> ArrT;

template <class C> struct Tr;
template <> struct Tr<Str> { typedef char E;
  static E elem(const std::string& t) { return (char)atoi(t.c_str()); }
  static std::vector<E> lit(const std::string& t) { std::string s = unhex(t.substr(1)); return std::vector<E>(s.begin(), s.end()); }
  static void putE(E e) { putInt((unsigned char)e); } };
template <> struct Tr<ArrI> { typedef int E;
  static E elem(const std::string& t) { return atoi(t.c_str()); }
  static std::vector<E> lit(const std::string& t) { std::vector<E> r; size_t i = 1; while (i < t.size()) { size_t j = t.find(',', i); r.push_back(atoi(t.substr(i, j - i).c_str())); i = j + 1; } return r; }
  static void putE(E e) { putInt(e); } };
template <> struct Tr<ArrT> { typedef Tracked E;
  static E elem(const std::string& t) { return Tracked(atoi(t.c_str())); }
  static std::vector<E> lit(const std::string& t) { std::vector<E> r; size_t i = 1; while (i < t.size()) { size_t j = t.find(',', i); r.push_back(Tracked(atoi(t.substr(i, j - i).c_str()))); i = j + 1; } return r; }
  static void putE(const E& e) { if (!Tracked::alive(&e)) g_life_bad = true; putInt(e.v); } };
template <> struct Tr<ArrV> { typedef Str E;
  static E elem(const std::string& t) { std::string s = unhex(t.substr(1)); return Str(s.data(), s.size()); }
  static std::vector<E> lit(const std::string& t) { std::vector<E> r; size_t i = 1; while (i < t.size()) { size_t j = t.find(',', i); std::string s = unhex(t.substr(i, j - i)); r.push_back(Str(s.data(), s.size())); i = j + 1; } return r; }
  static void putE(const E& e) { putBytes(e.cbegin(), e.length()); } };
// a single-pass range: what one copy of the iterator consumed is gone for every other
template <class E> struct OnePass { typedef std::input_iterator_tag iterator_category; typedef E value_type; typedef ptrdiff_t difference_type; typedef const E* pointer; typedef const E& reference;
  const std::vector<E>* v; size_t* at;
  bool end() const { return !v || *at == v->size(); }
  const E& operator*() const { return (*v)[*at]; }
  OnePass& operator++() { ++*at; return *this; }
  struct Proxy { E e; const E& operator*() const { return e; } };
  Proxy operator++(int) { Proxy p{(*v)[*at]}; ++*at; return p; }
  bool operator==(const OnePass& o) const { return end() == o.end(); }
  bool operator!=(const OnePass& o) const { return end() != o.end(); } };
template <class C, class E> void plusElem(C& c, const E& e, std::true_type) { c += e; }
template <class C, class E> void plusElem(C& c, const E& e, std::false_type) { c.append(e); }   // "+= int" drops elements

template <class It> static void putSeq(It b, It e) {
  put("["); bool first = true;
  for (; b != e; ++b) { if (!first) put(","); first = false; putInt(*b); }
  put("]");
}

static const int K = 5;
struct Args { std::string op, m; int d, s; long i, j, n; std::string v, w, x; };
static long toL(const std::string& t) { return strtol(t.c_str(), nullptr, 10); }

struct BadArg {};

template <class C> struct Sess {
  typedef typename Tr<C>::E E;
  alignas(C) char mem[K][sizeof(C)];
  bool live[K + 1];
  Sess() { for (int k = 0; k <= K; ++k) live[k] = false; }
  C& o(int k) { return *reinterpret_cast<C*>(mem[k - 1]); }
  const C& co(int k) { return o(k); }
  void* at(int k) { if (live[k]) throw BadArg(); live[k] = true; return mem[k - 1]; }
  void del(int k) { live[k] = false; o(k).~C(); }

  void putC(const C& c) {
    put("["); bool first = true;
    for (auto it = c.begin(); it != c.end(); ++it) { if (!first) put(","); first = false; Tr<C>::putE(*it); }
    put("]");
  }
  void putVec(const std::vector<E>& c) {
    put("["); for (size_t k = 0; k < c.size(); ++k) { if (k) put(","); Tr<C>::putE(c[k]); } put("]");
  }
  void post() {
    put(",\"post\":[");
    for (int k = 1; k <= K; ++k) {
      if (k > 1) put(",");
      if (!live[k]) { put("{\"l\":0,\"v\":[],\"rc\":0,\"b\":0,\"sh\":0}"); continue; }
      const C& c = o(k);
      put("{\"l\":1,\"v\":"); putC(c);
      put(",\"rc\":"); putInt((long)c.rcount());
      put(",\"b\":"); putInt(c.length() ? (long)blockOf(c.data()) : 0);
      put(",\"sh\":"); putInt(c.isShared() ? 1 : 0);
      put("}");
    }
    put("]");
  }
  // the returned value is printed by ret*(); default is 0
  std::string R;
  void beginRet() { g_out.clear(); }
  void retInt(long v) { put("\"ret\":"); putInt(v); }
  void retC(const C& c) { put("\"ret\":"); putC(c); }
  void retE(const E& e) { put("\"ret\":"); Tr<C>::putE(e); }
  void retStr(const std::string& s) { put("\"ret\":"); putBytes(s.data(), s.size()); }

  // ---------------- generic operations ----------------
  bool generic(const Args& a);
  bool special(const Args& a);   // type-specific, specialised below
  bool newStr(const Args& a);    // further constructors of String
  bool asgStr(const Args& a);
  void newLit(const Args& a);
  void asgLit(const Args& a);
};

// construction from an array of elements ended by a zero
template <class C, class V> static void newZt(Sess<C>&, const Args&, V&) { throw BadArg(); }
static void newZt(Sess<bd::Array<int>>& S, const Args& a, std::vector<int>& L) {
  void* p = S.at(a.d);
  for (int x : L) if (!x) { new (p) bd::Array<int>(L.data(), L.size()); return; }
  L.push_back(0); new (p) bd::Array<int>((const int*)L.data());
}

template <class C> void Sess<C>::newLit(const Args& a) {
  std::vector<E> L = Tr<C>::lit(a.v);
  if (a.m == "il") { void* p = at(a.d);
    switch (L.size()) {
      case 0: new (p) C(std::initializer_list<E>{}); break;
      case 1: new (p) C({L[0]}); break;
      case 2: new (p) C({L[0], L[1]}); break;
      case 3: new (p) C({L[0], L[1], L[2]}); break;
      case 4: new (p) C({L[0], L[1], L[2], L[3]}); break;
      case 5: new (p) C({L[0], L[1], L[2], L[3], L[4]}); break;
      default: new (p) C({L[0], L[1], L[2], L[3], L[4], L[5]}); break;
    }
  } else if (a.m == "vec") { void* p = at(a.d); new (p) C(L.begin(), L.end()); }
  else if (a.m == "list") { std::list<E> q(L.begin(), L.end()); void* p = at(a.d); new (p) C(q.begin(), q.end()); }
  else if (a.m == "in") { size_t k = 0; void* p = at(a.d); new (p) C(OnePass<E>{&L, &k}, OnePass<E>{nullptr, nullptr}); }
  else if (a.m == "zt") newZt(*this, a, L);
  else if (!newStr(a)) { void* p = at(a.d); new (p) C(L.data(), L.size()); }
}
template <class C> void Sess<C>::asgLit(const Args& a) {
  if (asgStr(a)) return;
  std::vector<E> L = Tr<C>::lit(a.v); C& c = o(a.d);
  switch (L.size()) {
    case 0: c = std::initializer_list<E>{}; break;
    case 1: c = {L[0]}; break;
    case 2: c = {L[0], L[1]}; break;
    case 3: c = {L[0], L[1], L[2]}; break;
    case 4: c = {L[0], L[1], L[2], L[3]}; break;
    case 5: c = {L[0], L[1], L[2], L[3], L[4]}; break;
    default: c = {L[0], L[1], L[2], L[3], L[4], L[5]}; break;
  }
}


template <class C> bool Sess<C>::newStr(const Args&) { return false; }
template <class C> bool Sess<C>::asgStr(const Args&) { return false; }
template <> bool Sess<Str>::newStr(const Args& a) {
  std::string v = unhex(a.v.substr(1));
  if (a.m == "cstr") { new (at(a.d)) Str(v.c_str()); return true; }
  if (a.m == "ch") { new (at(a.d)) Str(v[0]); return true; }
  if (a.m == "std") { new (at(a.d)) Str(v); return true; }
  return false;
}
template <> bool Sess<Str>::asgStr(const Args& a) {
  std::string v = unhex(a.v.substr(1));
  if (a.m == "cstr") { o(a.d) = v.c_str(); return true; }
  if (a.m == "std") { o(a.d) = v; return true; }
  return false;
}

template <class C> struct SubOf { static C get(const C& c, long i, long j) { return c.subarray(i, j); } };
template <> struct SubOf<Str> { static Str get(const Str& c, long i, long j) { return c.substring(i, j); } };

template <class C> bool Sess<C>::generic(const Args& a) {
  const std::string& op = a.op; const std::string& m = a.m;
  const size_t np = C::npos;
  const size_t n = a.n == -1 ? np : (size_t)a.n;
  if (op == "new") { new (at(a.d)) C(); return true; }
  if (op == "newcap") { new (at(a.d)) C((size_t)a.n); return true; }
  if (op == "newlit") { newLit(a); return true; }
  if (op == "newfill") { const E e = Tr<C>::elem(a.x); new (at(a.d)) C((size_t)a.n, e); return true; }
  if (op == "newcopy") { new (at(a.d)) C(co(a.s)); return true; }
  if (op == "newmove") { new (at(a.d)) C(std::move(o(a.s))); return true; }
  if (op == "newsub") {
    if (m == "call") new (at(a.d)) C(co(a.s)(a.i, a.j));
    else if (m == "slice") new (at(a.d)) C(o(a.s)(a.i, a.j));
    else if (m == "get") new (at(a.d)) C(o(a.s)(a.i, a.j).get());
    else new (at(a.d)) C(SubOf<C>::get(co(a.s), a.i, a.j));
    return true;
  }
  if (op == "del") { del(a.d); return true; }
  C& c = o(a.d); const C& cc = co(a.d);
  if (op == "asg") { c = co(a.s); return true; }
  if (op == "asgmove") { c = std::move(o(a.s)); return true; }
  if (op == "asglit") { asgLit(a); return true; }
  if (op == "asgsub") {
    if (m == "call") c = co(a.s)(a.i, a.j);
    else if (m == "slice") c = C(o(a.s)(a.i, a.j));
    else c = SubOf<C>::get(co(a.s), a.i, a.j);
    return true;
  }
  if (op == "swap") { if (m == "std") std::swap(c, o(a.s)); else swap(c, o(a.s)); return true; }
  if (op == "clear") { c.clear(); return true; }
  if (op == "reserve") { if (m == "f") c.reserve((size_t)a.n, 2.0); else c.reserve((size_t)a.n); return true; }
  if (op == "resize") { c.resize((size_t)a.n); return true; }
  if (op == "resizef") { const E e = Tr<C>::elem(a.x); c.resize((size_t)a.n, e); return true; }
  if (op == "app") {
    E e = Tr<C>::elem(a.x);
    if (m == "mv") c.append(std::move(e)); else if (m == "pb") c.push_back(e);
    else if (m == "op") plusElem(c, e, std::integral_constant<bool, !std::is_same<E, int>::value>());
    else if (m == "pbmv") c.push_back(std::move(e)); else if (m == "bi") { auto it = std::back_inserter(c); *it = e; }
    else c.append(e);
    return true;
  }
  if (op == "appown") {
    if (m == "pb") c.push_back(cc[a.i]); else if (m == "it") c.append(*(c.begin() + a.i)); else c.append(cc[a.i]);
    return true;
  }
  if (op == "appseq") {
    if (m == "op" && a.n == -1) c += co(a.s); else if (a.n == -1) c.append(co(a.s)); else c.append(co(a.s), n);
    return true;
  }
  if (op == "appseqmv") {
    if (m == "op" && a.n == -1) c += std::move(o(a.s)); else if (a.n == -1) c.append(std::move(o(a.s))); else c.append(std::move(o(a.s)), n);
    return true;
  }
  if (op == "ins") {
    E e = Tr<C>::elem(a.x);
    if (m == "it") { auto it = c.insert(cc.cbegin() + a.i, e); retInt(it - cc.cbegin()); }
    else if (m == "itmv") { auto it = c.insert(cc.cbegin() + a.i, std::move(e)); retInt(it - cc.cbegin()); }
    else if (m == "mv") c.insert((size_t)a.i, std::move(e)); else c.insert((size_t)a.i, e);
    return true;
  }
  if (op == "insown") { c.insert((size_t)a.i, cc[a.j]); return true; }
  if (op == "insseq") {
    if (a.n == -1 && m != "np") c.insert((size_t)a.i, co(a.s)); else c.insert((size_t)a.i, co(a.s), n);
    return true;
  }
  if (op == "insseqmv") {
    if (a.n == -1 && m != "np") c.insert((size_t)a.i, std::move(o(a.s))); else c.insert((size_t)a.i, std::move(o(a.s)), n);
    return true;
  }
  if (op == "insrange") {
    std::vector<E> L = Tr<C>::lit(a.v); long r;
    if (m == "list") { std::list<E> q(L.begin(), L.end()); auto it = c.insert(cc.cbegin() + a.i, q.begin(), q.end()); r = it - cc.cbegin(); }
    else if (m == "in") { size_t k = 0; auto it = c.insert(cc.cbegin() + a.i, OnePass<E>{&L, &k}, OnePass<E>{nullptr, nullptr}); r = it - cc.cbegin(); }
    else if (m == "nc") { auto it = c.insert(c.begin() + a.i, L.begin(), L.end()); r = it - cc.cbegin(); }
    else { auto it = c.insert(cc.cbegin() + a.i, L.begin(), L.end()); r = it - cc.cbegin(); }
    retInt(r); return true;
  }
  if (op == "repl") { E e = Tr<C>::elem(a.x); if (m == "mv") c.replace((size_t)a.i, std::move(e)); else c.replace((size_t)a.i, e); return true; }
  if (op == "replown") { c.replace((size_t)a.i, cc[a.j]); return true; }
  if (op == "replseq") { if (a.n == -1 && m != "np") c.replace((size_t)a.i, co(a.s)); else c.replace((size_t)a.i, co(a.s), n); return true; }
  if (op == "replseqmv") { if (a.n == -1 && m != "np") c.replace((size_t)a.i, std::move(o(a.s))); else c.replace((size_t)a.i, std::move(o(a.s)), n); return true; }
  if (op == "set") {
    E e = Tr<C>::elem(a.x);
    if (m == "wr") c.write((size_t)a.i, e);
    else if (m == "wrmv") c.write((size_t)a.i, std::move(e));
    else if (m == "rd") c.read((size_t)a.i) = e;
    else if (m == "fr") c.front() = e;
    else if (m == "bk") c.back() = e;
    else if (m == "it") *(c.begin() + a.i) = e;
    else if (m == "ite") *(c.end() - (cc.length() - a.i)) = e;
    else if (m == "rit") *(c.rbegin() + (cc.length() - 1 - a.i)) = e;
    else if (m == "mg") c[a.i].mget() = e;
    else if (m == "md") c.mdata()[a.i] = e;
    else if (m == "mv") c[a.i] = std::move(e);
    else c[a.i] = e;
    return true;
  }
  if (op == "setfrom") {
    if (m == "w") c.write((size_t)a.i, co(a.s)[a.j]);
    else if (m == "r") c[a.i] = co(a.s)[a.j];
    else c[a.i] = o(a.s)[a.j];
    return true;
  }
  if (op == "popb") { c.pop_back(); return true; }
  if (op == "slice") { c.slice(a.i, a.j); return true; }
  if (op == "sliceasg") { if (m == "dflt") c(a.i) = co(a.s); else c(a.i, a.j) = co(a.s); return true; }
  if (op == "sliceasgsl") { if (m == "c") { auto q = o(a.s)(toL(a.x), a.n); c(a.i, a.j) = q; } else c(a.i, a.j) = o(a.s)(toL(a.x), a.n); return true; }
  if (op == "sliceasgmv") { c(a.i, a.j) = std::move(o(a.s)); return true; }
  if (op == "at" && a.m != "ch") { retE(cc.at((size_t)a.i)); return true; }
  if (op == "idx") {
    if (m == "nc") { const E& e = c[a.i]; retE(e); }
    else if (m == "get") retE(c[a.i].get());
    else if (m == "rd") retE(cc.read(a.i));
    else if (m == "rdnc") retE(c.read(a.i));
    else if (m == "fr") retE(cc.front());
    else if (m == "bk") retE(cc.back());
    else if (m == "data") retE(cc.data()[a.i]);
    else retE(cc[a.i]);
    return true;
  }
  if (op == "iter") {
    std::vector<E> r;
    if (m == "nc") for (auto it = c.begin(); it != c.end(); ++it) r.push_back(*it);
    else if (m == "rf") for (const auto& e : cc) r.push_back(e);
    else if (m == "rfnc") for (auto& e : c) r.push_back(e);
    else if (m == "md") { auto p = c.mdata(); for (size_t k = 0; k < cc.length(); ++k) r.push_back(p[k]); }
    else for (auto it = cc.cbegin(); it != cc.cend(); ++it) r.push_back(*it);
    put("\"ret\":"); putVec(r); return true;
  }
  if (op == "riter") {
    std::vector<E> r;
    if (m == "nc") for (auto it = c.rbegin(); it != c.rend(); ++it) r.push_back(*it);
    else if (m == "c") for (auto it = cc.crbegin(); it != cc.crend(); ++it) r.push_back(*it);
    else for (auto it = cc.rbegin(); it != cc.rend(); ++it) r.push_back(*it);
    put("\"ret\":"); putVec(r); return true;
  }
  if (op == "len") { retInt(cc.length() == cc.size() && cc.capacity() >= cc.length() ? (long)cc.length() : -7); return true; }
  if (op == "empty") { bool e = cc.isEmpty(); retInt(e == !cc && e == !(bool)cc ? e : -7); return true; }
  if (op == "find") { E e = Tr<C>::elem(a.x); retInt((long)((m == "np" && a.i == 0) ? cc.find(e) : cc.find(e, (size_t)a.i))); return true; }
  if (op == "rfind") { E e = Tr<C>::elem(a.x); retInt((long)cc.rfind(e)); return true; }
  if (op == "eq") { bool e = cc == co(a.s); retInt(e != (cc != co(a.s)) ? e : -7); return true; }
  if (op == "hashf") {
    const C& t = co(a.s);
    C f, g; for (auto it = cc.cbegin(); it != cc.cend(); ++it) f.push_back(*it);
    for (auto it = t.cbegin(); it != t.cend(); ++it) g.push_back(*it);
    bool ok = cc.hash() == f.hash() && t.hash() == g.hash() && std::hash<C>()(cc) == f.hash() && cc == f && t == g;
    put("\"ret\":["); putInt(ok); put(","); putInt(cc == t); put("]"); return true;
  }
  if (op == "plus") { if (m == "mv") { C t(cc); retC(std::move(t) + co(a.s)); } else retC(cc + co(a.s)); return true; }
  return special(a);
}

template <class A> static bool arraySpecial(Sess<A>& S, const Args& a) {
  typedef typename Tr<A>::E E;
  const std::string& op = a.op; A& c = S.o(a.d);
  if (op == "shift") { E e = c.shift(); S.retE(e); return true; }
  if (op == "pop") { if (a.m == "op") { E e = E(); c >> e; S.retE(e); } else { E e = c.pop(); S.retE(e); } return true; }
  if (op == "tfirst") { E e = a.m == "copy" ? A(c).shift() : c.subarray(a.i, a.j).shift(); S.retE(e); return true; }
  if (op == "tlast") { E e = a.m == "copy" ? A(c).pop() : c.subarray(a.i, a.j).pop(); S.retE(e); return true; }
  if (op == "tinc") { const A r = a.m == "copy" ? A(c)++ : c.subarray(a.i, a.j)++; S.retC(r); return true; }
  if (op == "tdec") { const A r = a.m == "copy" ? A(c)-- : c.subarray(a.i, a.j)--; S.retC(r); return true; }
  if (op == "eqn") { S.retInt(S.co(a.d).equals(S.co(a.s), (size_t)a.n)); return true; }
  if (op == "unshift") { E e = Tr<A>::elem(a.x); if (a.m == "mv") c.push_front(std::move(e)); else c.push_front(e); return true; }
  if (op == "push") { E e = Tr<A>::elem(a.x); if (a.m == "mv") c << std::move(e); else if (a.m == "pb") c.push_back(e); else c << e; return true; }
  if (op == "postinc") { const A r = c++; S.retC(r); return true; }
  if (op == "postdec") { const A r = c--; S.retC(r); return true; }
  if (op == "dropb") { if (a.m == "pre") --c; else c -= (int)a.n; return true; }
  return false;
}
template <> bool Sess<ArrI>::special(const Args& a) { return arraySpecial(*this, a); }
template <> bool Sess<ArrT>::special(const Args& a) {
  if (a.op == "dropf") { if (a.m == "pre") ++o(a.d); else o(a.d) += (int)a.n; return true; }
  return arraySpecial(*this, a);
}
template <> bool Sess<ArrV>::special(const Args& a) {
  ArrV& c = o(a.d); const ArrV& cc = co(a.d);
  if (a.op == "dropf") { if (a.m == "pre") ++c; else c += (int)a.n; return true; }
  if (a.op == "elapp") {
    Str w = Tr<ArrV>::elem(a.w);
    if (a.m == "rd") c.read(a.i) += w; else if (a.m == "it") *(c.begin() + a.i) += w;
    else if (a.m == "set") c[a.i].mget()(cc[a.i].length()) = w; else c[a.i].mget() += w;
    return true;
  }
  if (a.op == "join") {
    Str w = Tr<ArrV>::elem(a.w); Str r = a.n == 1 ? cc.join(w, true) : cc.join(w);
    put("\"ret\":"); putBytes(r.data(), r.length()); return true;
  }
  return arraySpecial(*this, a);
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template <> bool Sess<Str>::special(const Args& a) {
  const std::string& op = a.op; Str& c = o(a.d); const Str& cc = co(a.d);
  const size_t np = Str::npos; const size_t n = a.n == -1 ? np : (size_t)a.n;
  auto rs = [&](const Str& s) { put("\"ret\":"); putBytes(s.data(), s.length()); };
  std::string v = a.v[0] == 'x' ? unhex(a.v.substr(1)) : std::string(), w = a.w[0] == 'x' ? unhex(a.w.substr(1)) : std::string();
  // exactly sized heap copies, so that over-reads are seen
  struct CS { char* p; CS(const std::string& s, bool nul) { p = new char[s.size() + nul ? s.size() + nul : 1]; memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; } ~CS() { delete[] p; } };
  if (op == "applit") { CS s(v, a.n == -1); if (a.m == "op" && a.n == -1) c += s.p; else if (a.n == -1) c.append(s.p); else c.append(s.p, n); return true; }
  if (op == "inslit") { CS s(v, a.n == -1); if (a.n == -1) c.insert((size_t)a.i, s.p); else c.insert((size_t)a.i, s.p, n); return true; }
  if (op == "repllit") { CS s(v, a.n == -1); if (a.n == -1) c.replace((size_t)a.i, s.p); else c.replace((size_t)a.i, s.p, n); return true; }
  if (op == "appself") { c.append(cc.data() + a.i, n); return true; }
  if (op == "insself") { c.insert((size_t)a.j, cc.data() + a.i, n); return true; }
  if (op == "replself") { c.replace((size_t)a.j, cc.data() + a.i, n); return true; }
  if (op == "dropf") { if (a.m == "pre") ++c; else c += (size_t)a.n; return true; }
  if (op == "dropb") { if (a.m == "pre") --c; else c -= (size_t)a.n; return true; }
  if (op == "postinc") { const Str r = c++; rs(r); return true; }
  if (op == "postdec") { const Str r = c--; rs(r); return true; }
  if (op == "at") { retInt((unsigned char)cc.charAt((size_t)a.i)); return true; }
  if (op == "cmp") { retInt(sgn(a.n == -1 ? cc.compare(co(a.s)) : cc.compare(co(a.s), n))); return true; }
  if (op == "cmpc") { CS s(v, true); retInt(sgn(a.n == -1 ? cc.compare(s.p) : cc.compare(s.p, n))); return true; }
  if (op == "rel") { const Str& t = co(a.s); bool b[6] = {cc == t, cc != t, cc < t, cc <= t, cc > t, cc >= t}; put("\"ret\":"); putSeq(b, b + 6); return true; }
  if (op == "relc") { CS s(v, true); const char* t = s.p; bool b[6] = {cc == t, cc != t, cc < t, cc <= t, cc > t, cc >= t}; put("\"ret\":"); putSeq(b, b + 6); return true; }
  if (op == "fsub") { retInt((long)((a.m == "np" && a.i == 0) ? cc.find(co(a.s)) : cc.find(co(a.s), (size_t)a.i))); return true; }
  if (op == "rfsub") { retInt((long)((a.m == "np" && a.i == 0) ? cc.rfind(co(a.s)) : cc.rfind(co(a.s), (size_t)a.i))); return true; }
  if (op == "ifsub") { retInt((long)cc.ifind(co(a.s))); return true; }
  if (op == "rifsub") { retInt((long)((a.m == "np" && a.i == 0) ? cc.rifind(co(a.s)) : cc.rifind(co(a.s), (size_t)a.i))); return true; }
  if (op == "cstr") { const char* p = a.m == "op" ? *cc : cc.c_str(); put("\"ret\":"); putBytes(p, cc.length() + 1); return true; }
  if (op == "dup") { char* p = cc.dup(); put("\"ret\":"); putBytes(p, cc.length() + 1); delete[] p; return true; }
  if (op == "copyout") {
    size_t k = std::min(n, cc.length()); char* b = new char[k + 3]; memset(b, 170, k + 3);
    size_t r = a.n == -1 ? cc.copy(b) : cc.copy(b, n);
    put("\"ret\":"); if (r == k) putBytes(b, k + 3); else put("[-1]"); delete[] b; return true;
  }
  if (op == "stdstr") { std::string s(cc); retStr(s); return true; }
  if (op == "ostream") {
    std::ostringstream os; if (a.m == "rv") os << Str(cc.data(), cc.length()); else if (a.m == "sh") os << Str(cc); else os << cc;
    retStr(os.str()); return true;
  }
  if (op == "split") {
    bd::Array<Str> r = a.n == -1 ? cc.split(co(a.s)) : cc.split(co(a.s), n);
    put("\"ret\":["); for (size_t k = 0; k < r.length(); ++k) { if (k) put(","); const Str& t = static_cast<const bd::Array<Str>&>(r)[k]; putBytes(t.data(), t.length()); } put("]"); return true;
  }
  if (op == "sub") { Str s(v.data(), v.size()), t(w.data(), w.size()); rs(a.n == -1 && a.m == "np" ? cc.sub(s, t) : cc.sub(s, t, (int)a.n)); return true; }
  if (op == "subst") {
    bd::HashTable<Str, Str> h; std::string kv = a.w; size_t p = 1;
    while (p < kv.size()) { size_t q = kv.find(':', p), r = kv.find(';', q); std::string k1 = unhex(kv.substr(p, q - p)), v1 = unhex(kv.substr(q + 1, r - q - 1)); h.insert(Str(k1.data(), k1.size()), Str(v1.data(), v1.size())); p = r + 1; }
    rs(cc.subst(h)); return true;
  }
  if (op == "chompc") { rs(cc.chomp()); return true; }
  if (op == "trimc") { rs(cc.trim()); return true; }
  if (op == "rep") { rs(cc * (int)a.n); return true; }
  if (op == "printf") { rs(Str::printf("%s%s%s", w.c_str(), cc.c_str(), w.c_str())); return true; }
  if (op == "fmt") {
    const char* z = cc.c_str(); const int k = (int)a.i, n = (int)a.n;
    if (a.m == "sd") rs(Str::printf("%s%d", z, k)); else if (a.m == "ds") rs(Str::printf("%d|%s|%d", k, z, k));
    else if (a.m == "pad") rs(Str::printf("%*s", n, z)); else if (a.m == "lpad") rs(Str::printf("[%-*s]", n, z));
    else if (a.m == "prec") rs(Str::printf("%.*s", n, z)); else if (a.m == "c") rs(Str::printf("%c%s%c", k, z, k));
    else if (a.m == "x") rs(Str::printf("%x.%s", k, z)); else if (a.m == "pct") rs(Str::printf("%%%s%%", z));
    else rs(Str::printf("plain text"));
    return true;
  }
  if (op == "newsplit") { Str r = (a.m == "np") ? newsplit(c) : newsplit(c, Tr<Str>::elem(a.x)); rs(r); return true; }
  if (op == "chomp") { Str& r = c.chomp(); if (&r != &c) retInt(-7); return true; }
  if (op == "trim") { Str& r = c.trim(); if (&r != &c) retInt(-7); return true; }
  if (op == "rdword" || op == "rdline") {
    std::istringstream is(v); if (op == "rdword") is >> c; else getline(is, c);
    std::string rest(1, is.fail() ? '\0' : '\1'); char ch;
    is.clear(); while (is.get(ch)) rest += ch; retStr(rest); return true;
  }
  throw BadArg();
}

// ---- preconditions of the documented interface; calls outside them are not made ----
static bool oneOf(const std::string& s, const char* list) {   // list: " a b c "
  return strstr(list, (" " + s + " ").c_str()) != nullptr;
}
template <class C> static bool preOK(Sess<C>& S, const Args& a) {
  const std::string& op = a.op;
  const bool usesS = oneOf(op, " newcopy newmove newsub asg asgmove asgsub swap appseq appseqmv insseq insseqmv replseq replseqmv setfrom sliceasg sliceasgsl sliceasgmv eq hashf cmp rel eqn fsub rfsub ifsub rifsub split plus ");
  if (usesS && (a.s < 1 || a.s > K || !S.live[a.s])) return false;
  if (oneOf(op, " newcap newfill reserve resize resizef dropf dropb rep ") && (a.n < 0 || a.n > 20000)) return false;
  if (op.compare(0, 3, "new") == 0 && op != "newsplit") return !S.live[a.d];
  if (!S.live[a.d]) return false;
  const long L = (long)S.co(a.d).length();
  if (oneOf(op, " appseqmv insseqmv replseqmv sliceasgmv ") && a.d == a.s) return false;
  if (oneOf(op, " idx set setfrom appown elapp ") && !(a.i >= 0 && a.i < L)) return false;
  if (oneOf(op, " insown replown ") && !(a.j >= 0 && a.j < L)) return false;
  if (op == "setfrom" && !(a.j >= 0 && a.j < (long)S.co(a.s).length())) return false;
  if (oneOf(op, " shift pop popb postdec ") && L == 0) return false;
  if (op == "postinc" && a.m != "S" && L == 0) return false;
  if (op == "dropb" && a.m == "pre" && L == 0) return false;
  if (op == "resize" && a.n > L) return false;
  if ((op == "insrange" || (op == "ins" && (a.m == "it" || a.m == "itmv"))) && !(a.i >= 0 && a.i <= L)) return false;
  if (oneOf(op, " appself insself replself ") && !(a.i >= 0 && a.n >= 0 && a.i + a.n <= L)) return false;
  if (oneOf(op, " split sub ") && (a.n == 0 || a.n < -1)) return false;
  if (oneOf(op, " appseq appseqmv insseq insseqmv replseq replseqmv applit inslit repllit cmp cmpc eqn copyout ") && a.n < -1) return false;
  if (oneOf(op, " tfirst tlast tinc tdec ") && (L == 0 || (a.m != "copy" && S.co(a.d)(a.i, a.j).length() == 0))) return false;
  if (oneOf(op, " rfsub rifsub ") && a.i < 0) return false;
  return true;
}
// positions may be given relative to the length of the object (L+k) or of the source (M+k)
template <class C> static long resolve(Sess<C>& S, const Args& a, const std::string& t) {
  if (t[0] == 'L') return (a.d >= 1 && a.d <= K && S.live[a.d] ? (long)S.co(a.d).length() : 0) + (t.size() > 1 ? toL(t.substr(1)) : 0);
  if (t[0] == 'M') return (a.s >= 1 && a.s <= K && S.live[a.s] ? (long)S.co(a.s).length() : 0) + (t.size() > 1 ? toL(t.substr(1)) : 0);
  return toL(t);
}
static long clampI(long v) { const long B = 1000000000; return v > B ? B : v < -B ? -B : v; }

template <class C> static bool runSession(std::istream& in, const std::string& mode) {
  Sess<C>* S; { Off o; S = new Sess<C>(); }
  std::string line; size_t blocks0 = g_nblk; bool ended = false;
  while (std::getline(in, line)) {
    std::vector<std::string> t = tokens(line);
    if (t.empty()) continue;
    Args a{t[0], "", 0, 0, 0, 0, -1, "-", "-", "-"};
    if (t.size() > 1) { a.m = t[1]; a.d = atoi(t[2].c_str()); a.s = atoi(t[3].c_str()); a.i = resolve(*S, a, t[4]); a.j = resolve(*S, a, t[5]); a.n = resolve(*S, a, t[6]); a.v = t[7]; a.w = t[8]; a.x = t[9]; }
    const char* err = ""; g_out.clear();
    armHang(5);
    g_on = true;
    if (a.op == "end") {
      ended = true;
      if (a.i == 1) { for (int k = K; k >= 1; --k) if (S->live[k]) S->del(k); }
      else for (int k = 1; k <= K; ++k) if (S->live[k]) S->del(k);
      g_on = false;
      if (g_nblk != blocks0) { err = "LEAK"; g_nblk = blocks0; }
      if (!g_live->empty()) { err = "LIFE"; g_live->clear(); }
    } else if (!preOK(*S, a)) { err = "pre";
    } else {
      try { if (!S->generic(a)) throw BadArg(); }
      catch (const std::out_of_range&) { err = "range"; g_out.clear(); }
      catch (const BadArg&) { fprintf(stderr, "bad script line: %s\n", line.c_str()); _exit(96); }
      catch (...) { err = "EXC"; g_out.clear(); }
    }
    g_on = false;
    armHang(0);
    if (g_life_bad) { err = "LIFE"; g_life_bad = false; }
    if (g_out.empty()) put("\"ret\":0");
    std::string r = g_out; g_out.assign("{"); g_out += r; g_out += std::string(",\"err\":\"") + err + "\",\"i\":"; putInt(clampI(a.i)); put(",\"j\":"); putInt(clampI(a.j)); put(",\"n\":"); putInt(clampI(a.n)); S->post(); put("}");
    if (g_life_bad) { g_life_bad = false; }
    flushLine();
    if (ended) break;
  }
  delete S;
  return ended;
}

int main(int argc, char** argv) {
  initDriver();
  g_live = new std::map<const Tracked*, int>();
  { std::ostringstream os; os << Str("warm") << 1; std::istringstream is("a b"); Str s; is >> s; getline(is, s); }
  std::string line;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> t = tokens(line);
    if (t.empty()) continue;
    if (t[0] != "session") { fprintf(stderr, "expected session: %s\n", line.c_str()); return 96; }
    bool ok;
    if (t[1] == "S") ok = runSession<Str>(std::cin, "");
    else if (t[1] == "I") ok = runSession<ArrI>(std::cin, "");
    else if (t[1] == "V") ok = runSession<ArrV>(std::cin, "");
    else ok = runSession<ArrT>(std::cin, "");
    if (!ok) return 96;
  }
  return 0;
}
