// Executes operation scripts on the real cache of /repo/simple_lru_cache and
// records, after every operation, everything the public interface shows.
//   cachedrv < script.ndjson > trace.ndjson
#define VCLOCK_IMPL
#include "vclock.h"
#include "mj.h"

#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>

#include "absl/hash/hash.h"
#include <string_view>
#include "simple_lru_cache/simple_lru_cache_inl.h"

using namespace google::simple_lru_cache;

// Script time 0, in microseconds.
static const int64_t kBase = 1700000000LL * 1000000LL;
static int64_t g_now = 0;
// The script's units of size and of time, so that its 32-bit numbers also
// reach large sizes and long times.
static int64_t g_usc = 1, g_tsc = 1;
static int64_t quot(int64_t v, int64_t d) { return v % d ? -999999 : v / d; }
static void setNow(int64_t t) {
  g_now = t;
  int64_t us = kBase + t * g_tsc;
  vclock::sec = us / 1000000;
  vclock::nsec = (us % 1000000) * 1000;
}

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define DRV_ASAN 1
#endif
#endif
#ifdef DRV_ASAN
#include <sanitizer/allocator_interface.h>
static long long heapBytes() { return static_cast<long long>(__sanitizer_get_current_allocated_bytes()); }
#else
#include <malloc.h>
static long long heapBytes() { return static_cast<long long>(mallinfo2().uordblks); }
#endif
// Heap bytes taken by the calls of the cache under test, from its creation on
// (what the harness takes or gives back meanwhile is taken out).
static long long g_meter = 0;
struct Window {
  long long at;
  Window() : at(heapBytes()) {}
  ~Window() { g_meter += heapBytes() - at; }
};
struct Outside {
  long long at;
  Outside() : at(heapBytes()) {}
  ~Outside() { g_meter -= heapBytes() - at; }
};

static std::vector<int> g_disposed;
// Values live in an arena, whose addresses are never used twice, so that a
// stale pointer is recognised.
static std::vector<int> g_state;  // index in the arena -> id, 0 when disposed of
static long g_alive = 0;
struct Val {
  int id;
  int at;
  // Memory of the value's own, for keys that point into it.
  char* name;
  size_t len;
  explicit Val(int i) : id(i), name(nullptr), len(0) {
    at = indexOf(this);
    g_state[at] = i;
    ++g_alive;
  }
  static const size_t kMax = 1 << 21;
  static char* arena() {
    static char* a = static_cast<char*>(malloc(kMax * sizeof(Val)));
    return a;
  }
  static int indexOf(const void* p) {
    // An address outside of the arena is nobody's.
    const char* c = static_cast<const char*>(p);
    if (c < arena() || c >= arena() + g_state.size() * sizeof(Val)) return -1;
    return static_cast<int>((c - arena()) / sizeof(Val));
  }
  static void* operator new(size_t n) {
    if (g_state.size() >= kMax) {
      fprintf(stderr, "arena\n");
      exit(97);
    }
    char* p = arena() + g_state.size() * n;
    g_state.push_back(0);
    return p;
  }
  static void operator delete(void*) {}
  void own(const std::string& s) {
    len = s.size();
    name = static_cast<char*>(malloc(len + 1));
    memcpy(name, s.data(), len);
  }
  ~Val() {
    Outside o;
    g_disposed.push_back(id);
    if (g_state[at] != 0) --g_alive;
    g_state[at] = 0;
    if (name != nullptr) {
      memset(name, '#', len);
      free(name);
    }
    name = nullptr;
  }
};
static int idOf(const Val* v) {
  if (v == nullptr) return 0;
  int n = Val::indexOf(v);
  return n < 0 || g_state[n] == 0 ? -1 : g_state[n];  // -1: a value already disposed of
}

struct SameHash {
  size_t operator()(const std::string&) const { return 7; }
};
struct FnDeleter {
  void operator()(Val* v) const { delete v; }
};

template <class K> struct KeyOf;
template <> struct KeyOf<int> {
  static int make(int k) { return k * 7919 - 4; }
  static int back(int k) { return (k + 4) / 7919; }
};
template <> struct KeyOf<std::string> {
  static std::string make(int k) {
    return k == 1 ? std::string() : std::string(static_cast<size_t>(k % 64) * 3, 'k') + std::to_string(k);
  }
  static int back(const std::string& s) {
    if (s.empty()) return 1;
    size_t d = s.find_first_not_of('k');
    if (d == std::string::npos || s.size() - d > 6) return -1;
    int k = atoi(s.c_str() + d);
    return make(k) == s ? k : -1;
  }
};

// Keys that own nothing: in the calls they point into the value, or to memory
// that lasts.
template <> struct KeyOf<std::string_view> {
  static const std::string& lasting(int k) {
    static std::vector<std::string> all;
    if (all.empty()) {
      all.resize(1024);
      for (int i = 1; i < 1024; ++i) all[i] = KeyOf<std::string>::make(i);
    }
    return all[k < 1 || k > 1023 ? 0 : k];
  }
  static std::string_view make(int k) { return lasting(k); }
  static int back(std::string_view s) { return KeyOf<std::string>::back(std::string(s)); }
};
static std::string_view ownKey(const Val* v) { return std::string_view(v->name, v->len); }

// What the script interpreter needs of a cache.
struct Api {
  virtual ~Api() {}
  virtual Val* lookup(int k, bool upd, bool plain) = 0;
  virtual void release(int k, Val* v, bool upd, bool plain) = 0;
  virtual void insert(int k, Val* v, size_t u) = 0;
  virtual void insertPinned(int k, Val* v, size_t u) = 0;
  virtual void updateSize(int k, const Val* v, size_t u) = 0;
  virtual bool stillInUse(int k, const Val* v, bool keyOnly) = 0;
  virtual void remove(int k) = 0;
  virtual void removeAll() = 0;
  virtual void removeUnpinned() = 0;
  virtual void clear() = 0;
  virtual void removeExpired() = 0;
  virtual void setMax(int64_t m) = 0;
  virtual void setTimeout(double s, bool lru) = 0;
  virtual std::string observe(bool lru, int nkeys) = 0;
  virtual void* scopedOpen(int k, bool upd, bool plain, Val** v, bool* found) = 0;
  virtual void scopedSee(void* p, Val** v, bool* found) = 0;
  virtual void scopedClose(void* p) = 0;
};
static long long g_max_ent = -1;

struct Row { int id; int pin; int64_t last; bool def; };
static std::vector<Row> rows;

template <class Base, class K>
struct Cache : public Base, public Api {
  using typename Base::ScopedLookup;
  explicit Cache(int64_t m) : Base(m) {}
  static K key(int k) { return KeyOf<K>::make(k); }
  // The key as a caller has it who holds the value.
  static K keyIn(int k, Val* v, bool own) { return keyIn(k, v, own, static_cast<K*>(nullptr)); }
  template <class T> static K keyIn(int k, Val*, bool, T*) { return key(k); }
  static K keyIn(int k, Val* v, bool own, std::string_view*) {
    if (!own) return key(k);
    if (v->name == nullptr) {
      Outside o;
      v->own(KeyOf<std::string>::make(k));
    }
    return ownKey(v);
  }
  bool isOverfull() const override {
    // the capacity in units has to be kept whatever an override says
    return g_max_ent >= 0 ? this->entries() > g_max_ent : Base::isOverfull();
  }
  void debugIterator(const Val* v, int pin, int64_t last, bool def, std::string* out) const override {
    rows.push_back({idOf(v), pin, quot(last - kBase, g_tsc), def});
    Base::debugIterator(v, pin, last, def, out);
  }
  static SimpleLRUCacheOptions opts(bool upd) {
    SimpleLRUCacheOptions o;
    o.set_update_eviction_order(upd);
    return o;
  }
  Val* lookup(int k, bool upd, bool plain) override {
    Window w;
    return plain && upd ? Base::lookup(key(k)) : Base::lookupWithOptions(key(k), opts(upd));
  }
  void release(int k, Val* v, bool upd, bool plain) override {
    Window w;
    K kk = keyIn(k, v, v->id % 3 == 0);
    if (plain && upd) Base::release(kk, v); else Base::releaseWithOptions(kk, v, opts(upd));
  }
  void insert(int k, Val* v, size_t u) override {
    Window w; Base::insert(keyIn(k, v, true), v, u * g_usc); }
  void insertPinned(int k, Val* v, size_t u) override {
    Window w; Base::insertPinned(keyIn(k, v, true), v, u * g_usc); }
  void updateSize(int k, const Val* v, size_t u) override {
    Window w; Base::updateSize(key(k), v, u * g_usc); }
  bool stillInUse(int k, const Val* v, bool ko) override {
    Window w;
    return ko ? Base::stillInUse(key(k)) : Base::stillInUse(key(k), v);
  }
  void remove(int k) override {
    Window w; Base::remove(key(k)); }
  void removeAll() override {
    Window w; Base::removeAll(); }
  void removeUnpinned() override {
    Window w; Base::removeUnpinned(); }
  void clear() override {
    Window w; Base::clear(); }
  void removeExpired() override {
    Window w; Base::removeExpiredEntries(); }
  void setMax(int64_t m) override {
    Window w; Base::setMaxSize(m * g_usc); }
  void setTimeout(double s, bool lru) override {
    Window w;
    if (lru) Base::setMaxIdleSeconds(s); else Base::setAgeBasedEviction(s);
  }
  void* scopedOpen(int k, bool upd, bool plain, Val** v, bool* found) override {
    Window w;
    auto* s = plain && upd ? new ScopedLookup(this, key(k)) : new ScopedLookup(this, key(k), opts(upd));
    *v = s->value();
    *found = s->found();
    if (!(s->key() == key(k)) || s->options().update_eviction_order() != upd) *found = !*found;
    return s;
  }
  void scopedSee(void* p, Val** v, bool* found) override {
    Window w;
    auto* s = static_cast<ScopedLookup*>(p);
    *v = s->value();
    *found = s->found();
  }
  void scopedClose(void* p) override {
    Window w; delete static_cast<ScopedLookup*>(p); }

  static void num(std::string& o, const char* n, int64_t v) {
    o += ",\"";
    o += n;
    o += "\":";
    // TLC integers have 32 bits
    if (v > 2000000000LL) v = 2000000000LL;
    if (v < -2000000000LL) v = -2000000000LL;
    o += std::to_string(v);
  }
  // A text with its numbers of units, all but the first few, as TLC has them.
  static std::string rescaled(const std::string& t, int skip) {
    std::string o;
    for (size_t i = 0; i < t.size();) {
      size_t n = i + (t[i] == '-');
      while (n < t.size() && isdigit(static_cast<unsigned char>(t[n]))) ++n;
      if (n == i + (t[i] == '-') || n - i > 18) {
        o += t[i++];
        continue;
      }
      const std::string num = t.substr(i, n - i);
      o += skip-- > 0 || g_usc == 1 ? num : std::to_string(quot(std::stoll(num), g_usc));
      i = n;
    }
    return o;
  }
  std::string observe(bool lru, int nkeys) override {
    std::string o;
    num(o, "size", quot(Base::size(), g_usc));
    num(o, "ent", Base::entries());
    num(o, "dsz", quot(Base::deferredSize(), g_usc));
    num(o, "dent", Base::deferredEntries());
    num(o, "psz", quot(Base::pinnedSize(), g_usc));
    num(o, "msz", quot(Base::maxSize(), g_usc));
    num(o, "age", quot(Base::ageOfLRUItemInMicroseconds(), g_tsc));
    rows.clear();
    std::string text;
    Base::debugOutput(&text);
    auto rowsJson = [](const std::vector<Row>& rs) {
      std::string r = "[";
      for (auto& x : rs) {
        if (r.size() > 1) r += ',';
        r += "[" + std::to_string(x.id) + "," + std::to_string(x.pin) + "," +
             std::to_string(x.last) + "," + (x.def ? "1" : "0") + "]";
      }
      return r + "]";
    };
    o += ",\"dump\":" + rowsJson(rows);
    // The text: header up to the first element, then one line per element.
    std::vector<Row> parsed;
    size_t pos = text.find("ox");
    size_t dpos = text.find("Deferred elements\n");
    std::string head = text.substr(0, std::min(pos, dpos));
    while (pos != std::string::npos) {
      unsigned long long ptr = 0;
      int pin = 0, def = 0;
      long long last = 0;
      if (sscanf(text.c_str() + pos, "ox%llx: pin: %d, is_deferred: %d, last_use: %lld", &ptr, &pin,
                 &def, &last) == 4) {
        bool late = pos > dpos;
        parsed.push_back({idOf(reinterpret_cast<const Val*>(ptr)), pin, quot(last - kBase, g_tsc), late && def});
      } else {
        parsed.push_back({-9, 0, 0, false});
      }
      pos = text.find("ox", pos + 2);
    }
    o += ",\"text\":" + rowsJson(parsed);
    o += ",\"head\":" + mj::q(rescaled(head, 2));
    o += ",\"summ\":" + mj::q(rescaled(Base::summary(), 0));
    o += ",\"iter\":[";
    bool f = true;
    int guard = 0;
    auto it = this->begin();
    auto end = this->end();
    for (; it != end && guard < 1000; ++it, ++guard) {
      if (!f) o += ',';
      f = false;
      int64_t t = lru ? it.last_use_time() : it.insertion_time();
      o += "[" + std::to_string(KeyOf<K>::back((*it).first)) + "," + std::to_string(idOf(it->second)) +
           "," + std::to_string(quot(t - kBase, g_tsc)) + "]";
    }
    o += "],\"use\":[";
    for (int k = 1; k <= nkeys; ++k) {
      if (k > 1) o += ',';
      int64_t t = lru ? Base::getLastUseTime(key(k)) : Base::getInsertionTime(key(k));
      o += std::to_string(t == -1 ? -1 : quot(t - kBase, g_tsc));
    }
    o += "],\"inuse\":[";
    for (int k = 1; k <= nkeys; ++k) {
      if (k > 1) o += ',';
      o += Base::stillInUse(key(k)) ? "1" : "0";
    }
    o += "]";
    return o;
  }
};

static std::unique_ptr<Api> make(const std::string& variant, int64_t m) {
  if (variant == "int") return std::unique_ptr<Api>(new Cache<SimpleLRUCache<int, Val>, int>(m));
  if (variant == "str")
    return std::unique_ptr<Api>(new Cache<SimpleLRUCache<std::string, Val>, std::string>(m));
  if (variant == "view")
    return std::unique_ptr<Api>(new Cache<SimpleLRUCache<std::string_view, Val>, std::string_view>(m));
  if (variant == "coll")
    return std::unique_ptr<Api>(
        new Cache<SimpleLRUCache<std::string, Val, SameHash>, std::string>(m));
  if (variant == "del")
    return std::unique_ptr<Api>(
        new Cache<SimpleLRUCacheWithDeleter<int, Val, FnDeleter>, int>(m));
  fprintf(stderr, "variant?\n");
  exit(97);
}

// The same calls again and again on one cache, which ends each round with the
// same entries: growth of the heap per round, after a few.
static std::string rounds(const mj::V& e) {
  std::string out;
  {
    std::unique_ptr<Api> c = make(e.str("variant", "int"), e.num("max", 1));
    int id = 0;
    bool lru = true;
    long long last = 0;
    // Each period has as many rounds as the one before or, when the rounds
    // differ in their keys, twice as many.
    const bool vary = e.flag("vary", false);
    const int periods = vary ? 7 : 8;
    int round = 0;
    for (int i = 0; i < periods; ++i) {
      for (int j = 0; j < (vary ? 6 << i : 24); ++j, ++round) {
        std::vector<std::pair<int, Val*>> held;
        for (auto& x : e.at("ops").a) {
          const std::string& op = x.a[0].s;
          int k = static_cast<int>(x.a[1].i), u = static_cast<int>(x.a[2].i);
          if (vary) k += 10 * round;
          if (op == "insert") {
            Val* v = new Val(++id);
            c->insert(k, v, u);
          } else if (op == "insertp") {
            Val* v = new Val(++id);
            c->insertPinned(k, v, u);
            held.push_back({k, v});
          } else if (op == "lookup") {
            Val* v = c->lookup(k, true, false);
            if (v) held.push_back({k, v});
          } else if (op == "scope") {
            Val* v;
            bool found;
            c->scopedClose(c->scopedOpen(k, u > 1, false, &v, &found));
          } else if (op == "release") {
            if (held.empty()) continue;
            auto h = held[u % held.size()];
            held.erase(held.begin() + u % held.size());
            c->release(h.first, h.second, true, false);
          } else if (op == "updatesize") {
            c->updateSize(k, nullptr, u);
          } else if (op == "remove") {
            c->remove(k);
          } else if (op == "removeall") {
            c->removeAll();
          } else if (op == "removeunpinned") {
            c->removeUnpinned();
          } else if (op == "expire") {
            c->removeExpired();
          } else if (op == "tick") {
            setNow(g_now + u);
          } else if (op == "setmax") {
            c->setMax(u);
          } else if (op == "timeout") {
            c->setTimeout(-1, lru);
            lru = x.a[1].i % 2 == 0;
            c->setTimeout(u / 1e6, lru);
          } else if (op == "look") {
            c->observe(lru, 4);
          }
        }
        for (auto& h : held) c->release(h.first, h.second, true, false);
        if (e.flag("clear", false)) c->clear(); else c->removeAll();
        g_disposed.clear();
      }
      long long now = heapBytes();
      if (i >= 2) out += (out.empty() ? "" : ",") + std::to_string(std::max(-1000000000LL, std::min(1000000000LL, now - last)));
      last = now;
    }
    c->clear();
  }
  setNow(0);
  g_disposed.clear();
  return "[" + out + "]";
}

// Seconds that stand for a limit of t script units: every duration from t units
// up to just below t + 1 does, as the clock only shows whole units.
double secondsFor(long long t) {
  static unsigned n = 0;
  const long long low = t * g_tsc, high = low + g_tsc - 1;
  switch (n++ % 4) {
    case 0: return (static_cast<double>(low) + 0.25) / 1e6;
    case 1: return (static_cast<double>(high) + 0.25) / 1e6;
    case 2:  // where nothing is rounded, the exact number
      return low % 1000000 == 0 ? static_cast<double>(low / 1000000) : (static_cast<double>(low) + 0.5) / 1e6;
    default: return (static_cast<double>(high) + 0.75) / 1e6;
  }
}

int main() {
  setNow(0);
  vclock::on = true;
  g_state.reserve(Val::kMax);
  g_disposed.reserve(1 << 20);
  rows.reserve(1 << 16);
  {
    // whatever is set up once by the libraries underneath
    for (const char* v : {"int", "str", "coll", "del", "view"})
      for (const char* clear : {"true", "false"})
        rounds(mj::parse(std::string("{\"variant\":\"") + v + "\",\"max\":3,\"clear\":" + clear +
                         ",\"ops\":[[\"insert\",1,1],[\"insertp\",2,1],[\"insertp\",2,1],[\"look\",0,0],[\"lookup\",1,0],[\"updatesize\",1,2],"
                         "[\"scope\",2,1],[\"scope\",2,2],[\"remove\",1,0],[\"release\",0,0],[\"insert\",3,1],[\"insert\",4,1],[\"timeout\",1,1],"
                         "[\"look\",0,0],[\"tick\",0,5],[\"expire\",0,0],[\"timeout\",2,1],[\"insert\",1,1],[\"setmax\",0,2],[\"removeunpinned\",0,0],"
                         "[\"insertp\",1,1],[\"removeall\",0,0],[\"look\",0,0]]}"));
  }
  g_meter = 0;
  std::unique_ptr<Api> c;
  bool lru = true;
  double idle = -1;
  int nkeys = 4;
  std::map<int, Val*> byId;
  struct Handle { int k; Val* v; int id; bool upd; bool plain; void* scope; long many; };
  std::map<int, Handle> hs;
  std::map<int, Handle> empties;  // scopes that found nothing
  std::string line;
  long n = 0;
  // At the end, the last cache is emptied and replaced like the others.
  bool more = true;
  while (more) {
    more = static_cast<bool>(std::getline(std::cin, line));
    if (!more) line = "{\"op\":\"new\"}";
    if (line.empty()) continue;
    mj::V e = mj::parse(line);
    std::string op = e.str("op");
    ++n;
    // Announce the call: if it never returns, this line is the last one.
    auto begin = [&](const std::string& body) {
      fputs(("{" + body).c_str(), stdout);
      fflush(stdout);
      g_disposed.clear();
    };
    auto end = [&](int res) {
      std::string o = ",\"res\":" + std::to_string(res) + ",\"disp\":[";
      for (size_t i = 0; i < g_disposed.size(); ++i)
        o += (i ? "," : "") + std::to_string(g_disposed[i]);
      o += "]";
      if (c) {
        // what the open scopes show, beside the value each was opened with
        std::string seen;
        auto see = [&](void* scope, int id) {
          Val* v = nullptr;
          bool found = false;
          c->scopedSee(scope, &v, &found);
          seen += (seen.empty() ? "[" : ",[") + std::to_string(id) + "," + std::to_string(idOf(v)) + "," + (found ? "1]" : "0]");
        };
        for (auto& h : hs)
          if (h.second.scope) see(h.second.scope, h.second.id);
        for (auto& h : empties) see(h.second.scope, 0);
        o += ",\"scopes\":[" + seen + "]";
        o += c->observe(lru, nkeys);
        // what is observed leaves nothing behind
        if (n % 8 == 0) {
          Window w;
          c->observe(lru, nkeys);
        }
      }
      o += "}\n";
      fputs(o.c_str(), stdout);
      fflush(stdout);
    };
    int k = e.num("k", 0);
    bool upd = e.flag("upd", true);
    bool plain = e.flag("plain", false);
    auto b2s = [](bool b) { return std::string(b ? "true" : "false"); };
    // all that a handle stands for is given back, or some of it
    auto doRelease = [&](int h, long some = 0) {
      auto em = empties.find(h);
      if (em != empties.end()) {
        void* s = em->second.scope;
        begin("\"op\":\"endscope\",\"k\":" + std::to_string(em->second.k));
        empties.erase(em);
        c->scopedClose(s);
        end(0);
        return;
      }
      auto it = hs.find(h);
      if (it == hs.end()) return;
      Handle hd = it->second;
      const long many = some > 0 && some < hd.many ? some : hd.many;
      if (many == hd.many) hs.erase(it); else it->second.many -= many;
      begin("\"op\":\"release\",\"k\":" + std::to_string(hd.k) + ",\"id\":" + std::to_string(hd.id) +
            ",\"upd\":" + b2s(hd.upd) + ",\"via\":\"" + (hd.scope ? "scope" : "call") + "\",\"n\":" + std::to_string(many));
      if (hd.scope) {
        c->scopedClose(hd.scope);
      } else {
        for (long i = 0; i < many; ++i) c->release(hd.k, hd.v, hd.upd, hd.plain);
      }
      end(0);
    };
    if (op == "rounds") {
      // on a cache of its own, between the lives of others
      long long meter = g_meter;
      std::string g = rounds(e);
      g_meter = meter;
      fputs(("{\"op\":\"rounds\",\"growth\":" + g + "}\n").c_str(), stdout);
      fflush(stdout);
      continue;
    }
    if (op == "new") {
      std::vector<int> all;
      for (auto& h : hs) all.push_back(h.first);
      for (auto& h : empties) all.push_back(h.first);
      for (int h : all) doRelease(h);
      if (c) {
        begin("\"op\":\"clear\"");
        c->clear();
        end(0);
      }
      {
        Window w;
        c.reset();
      }
      long long heap = std::max(-2000000000LL, std::min(2000000000LL, g_meter));
      begin("\"op\":\"new\",\"usc\":" + std::to_string(e.num("usc", 1)) + ",\"tsc\":" + std::to_string(e.num("tsc", 1)) + ",\"variant\":" + mj::q(e.str("variant", "int")) +
            ",\"max\":" + std::to_string(e.num("max", 1)) + ",\"maxEnt\":" + std::to_string(e.num("maxEnt", -1)) +
            ",\"nkeys\":" + std::to_string(e.num("nkeys", 4)) + ",\"alive\":" + std::to_string(g_alive) + ",\"heap\":" + std::to_string(heap));
      byId.clear();
      lru = true;
      idle = -1;
      nkeys = e.num("nkeys", 4);
      g_max_ent = e.num("maxEnt", -1);
      g_usc = e.num("usc", 1);
      g_tsc = e.num("tsc", 1);
      setNow(0);
      g_meter = 0;
      {
        Window w;
        c = make(e.str("variant", "int"), e.num("max", 1) * g_usc);
      }
      end(0);
      continue;
    }
    if (!c) exit(97);
    if (op == "tick") {
      begin("\"op\":\"tick\",\"d\":" + std::to_string(e.num("d", 0)));
      setNow(g_now + e.num("d", 0));
      end(0);
    } else if (op == "lookup" || op == "scope") {
      bool sc = op == "scope";
      const long many = sc ? 1 : e.num("n", 1);
      begin("\"op\":\"lookup\",\"k\":" + std::to_string(k) + ",\"upd\":" + b2s(upd) + ",\"via\":\"" +
            (sc ? "scope" : "call") + "\",\"n\":" + std::to_string(many));
      Val* v = nullptr;
      void* s = nullptr;
      bool found = false;
      if (sc) {
        s = c->scopedOpen(k, upd, plain, &v, &found);
        if (found != (v != nullptr)) v = nullptr;
      } else {
        v = c->lookup(k, upd, plain);
      }
      int id = idOf(v);
      // each of many lookups shows the same
      for (long i = 1; i < many; ++i)
        if (c->lookup(k, upd, plain) != v) id = -3;
      if (v) {
        hs[e.num("h", 0)] = {k, v, id, upd, plain, s, many};
      } else if (s) {
        empties[e.num("h", 0)] = {k, nullptr, 0, upd, plain, s, 1};
      }
      end(id);
    } else if (op == "release") {
      doRelease(e.num("h", 0), e.num("n", 0));
    } else if (op == "releaseid") {
      // release any handle of that value acquired with that option
      for (auto& h : hs)
        if (h.second.id == e.num("id", 0) && h.second.upd == upd) {
          int hh = h.first;
          doRelease(hh);
          break;
        }
    } else if (op == "insert" || op == "insertp") {
      int id = e.num("id", 0);
      long long u = e.num("units", 1);
      begin("\"op\":\"" + op + "\",\"k\":" + std::to_string(k) + ",\"id\":" + std::to_string(id) +
            ",\"units\":" + std::to_string(u));
      Val* v = new Val(id);
      byId[id] = v;
      if (op == "insert") {
        c->insert(k, v, u);
      } else {
        c->insertPinned(k, v, u);
        hs[e.num("h", 0)] = {k, v, id, true, true, nullptr, 1};
      }
      end(0);
    } else if (op == "fill") {
      // one entry under each of several keys
      int id = e.num("id", 0), many = e.num("n", 1);
      long long u = e.num("units", 1);
      begin("\"op\":\"fill\",\"k\":" + std::to_string(k) + ",\"id\":" + std::to_string(id) + ",\"n\":" + std::to_string(many) +
            ",\"units\":" + std::to_string(u));
      for (int i = 0; i < many; ++i) {
        Val* v = new Val(id + i);
        byId[id + i] = v;
        c->insert(k + i, v, u);
      }
      end(0);
    } else if (op == "updatesize") {
      int id = e.num("id", 0);
      Val* v = nullptr;
      if (id) {
        auto it = byId.find(id);
        if (it == byId.end() || idOf(it->second) != id) continue;
        v = it->second;
      }
      begin("\"op\":\"updatesize\",\"k\":" + std::to_string(k) + ",\"id\":" + std::to_string(id) +
            ",\"units\":" + std::to_string(e.num("units", 1)));
      c->updateSize(k, v, e.num("units", 1));
      end(0);
    } else if (op == "inuse") {
      int id = e.num("id", 0);
      Val* v = nullptr;
      if (id) {
        auto it = byId.find(id);
        if (it == byId.end() || idOf(it->second) != id) continue;
        v = it->second;
      }
      begin("\"op\":\"inuse\",\"k\":" + std::to_string(k) + ",\"id\":" + std::to_string(id));
      bool r = c->stillInUse(k, v, id == 0 && plain);
      end(r ? 1 : 0);
    } else if (op == "remove") {
      begin("\"op\":\"remove\",\"k\":" + std::to_string(k));
      c->remove(k);
      end(0);
    } else if (op == "removeall") {
      begin("\"op\":\"removeall\"");
      c->removeAll();
      end(0);
    } else if (op == "removeunpinned") {
      begin("\"op\":\"removeunpinned\"");
      c->removeUnpinned();
      end(0);
    } else if (op == "releaseall") {
      std::vector<int> all;
      for (auto& h : hs) all.push_back(h.first);
      for (auto& h : empties) all.push_back(h.first);
      if (e.flag("rev", false)) std::reverse(all.begin(), all.end());
      for (int h : all) doRelease(h);
    } else if (op == "clear") {
      if (!hs.empty()) continue;
      begin("\"op\":\"clear\"");
      c->clear();
      end(0);
    } else if (op == "expire") {
      begin("\"op\":\"expire\"");
      c->removeExpired();
      end(0);
    } else if (op == "setmax") {
      begin("\"op\":\"setmax\",\"max\":" + std::to_string(e.num("max", 1)));
      c->setMax(e.num("max", 1));
      end(0);
    } else if (op == "setmaxent") {
      begin("\"op\":\"setmaxent\",\"max\":" + std::to_string(e.num("max", -1)));
      g_max_ent = e.num("max", -1);
      end(0);
    } else if (op == "settimeout") {
      // t: microseconds; or special: "inf", "huge", "neginf", "edge"
      bool l = e.flag("lru", true);
      std::string sp = e.str("sp", "");
      long long t = e.num("t", -1);
      double s;
      if (sp == "inf") { s = std::numeric_limits<double>::infinity(); t = -1; }
      else if (sp == "neginf") { s = -std::numeric_limits<double>::infinity(); t = -1; }
      else if (sp == "huge") { s = 1e300; t = 2000000000LL; }
      else if (sp == "edge") { s = 9223372036854.7758; t = 2000000000LL; }
      else if (sp == "year") { s = 1e9; t = 2000000000LL; }
      else { s = t < 0 ? -1.0 : secondsFor(t); }
      if (t >= 0 && idle >= 0 && l != lru) continue;  // not allowed
      begin("\"op\":\"settimeout\",\"t\":" + std::to_string(t) + ",\"lru\":" + b2s(l));
      c->setTimeout(s, l);
      lru = l;
      idle = t;
      end(0);
    } else {
      fprintf(stderr, "op? %s\n", op.c_str());
      exit(97);
    }
  }
  return 0;
}
