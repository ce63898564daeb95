// Reference counted handles (C19): random histories of operations on handles, some of which are inside nodes. A node has to be alive as
// long as there is a handle to it, and be destroyed once when the last one goes away.
#include <array>
#include <memory>
#include <thread>

#include "drivers/rt/rt.h"

namespace rt {
namespace {
struct fate {
  int destroyed = 0;
};

// A node of each kind that has handles in it and reports its destruction.
struct plain : public ref_counted<plain> {
  typedef slinky::ref_count<plain> handle;
  fate* f;
  handle child[2];
  plain(fate* f) : f(f) {}
  // The count stays with the object that is copied, moved or assigned.
  plain(const plain& o, fate* f) : slinky::ref_counted<plain>(o), f(f) { child[0] = o.child[0], child[1] = o.child[1]; }
  plain(plain&& o, fate* f) : slinky::ref_counted<plain>(std::move(o)), f(f) { child[0] = o.child[0], child[1] = o.child[1]; }
  void assign(const plain& o) { slinky::ref_counted<plain>::operator=(o); }
  void assign_moved(plain& o) { slinky::ref_counted<plain>::operator=(std::move(o)); }
  ~plain() { f->destroyed++; }
  static void destroy(plain* p) { delete p; }
  static plain* get(const handle& h) { return const_cast<plain*>(static_cast<const plain*>(h)); }
  static handle make(plain* p) { return handle(p); }
};
struct enode : public base_expr_node {
  typedef expr handle;
  fate* f;
  handle child[2];
  enode(fate* f) : base_expr_node(expr_node_type::none), f(f) {}
  ~enode() { f->destroyed++; }
  void accept(expr_visitor*) const override {}
  static enode* get(const handle& h) { return const_cast<enode*>(static_cast<const enode*>(h.get())); }
  static handle make(enode* p) { return handle(static_cast<const base_expr_node*>(p)); }
};
struct snode : public base_stmt_node {
  typedef stmt handle;
  fate* f;
  handle child[2];
  snode(fate* f) : base_stmt_node(stmt_node_type::none), f(f) {}
  ~snode() { f->destroyed++; }
  void accept(stmt_visitor*) const override {}
  static snode* get(const handle& h) { return const_cast<snode*>(static_cast<const snode*>(h.get())); }
  static handle make(snode* p) { return handle(static_cast<const base_stmt_node*>(p)); }
};

template <typename N>
struct history {
  typedef typename N::handle H;
  rng& r;
  std::vector<std::unique_ptr<fate>> fates;
  std::vector<N*> nodes;                      // by age; a node refers only to older ones
  std::vector<std::unique_ptr<H>> roots;      // null: no handle there
  std::vector<int> loose;                     // counts that are held by the history itself (take)
  std::ostringstream log;

  explicit history(rng& r) : r(r), roots(5) {}

  int index(const N* n) {
    for (std::size_t i = 0; i < nodes.size(); ++i)
      if (nodes[i] == n && !fates[i]->destroyed) return (int)i;
    return -1;
  }
  int at(const H& h) {
    const N* n = N::get(h);
    if (!n) return -1;
    int i = index(n);
    if (i < 0) fail("after", log.str(), ": a handle refers to a node that was destroyed");
    return i;
  }

  // What each slot is expected to hold; the model of the history. Slots are roots, then the children of node i.
  std::vector<int> mroots = std::vector<int>(5, -2);            // -2: no handle
  std::vector<std::array<int, 2>> mchild;
  std::vector<bool> dead;

  void collect() {
    // A node dies when nothing refers to it; what it refers to may die then.
    for (bool change = true; change;) {
      change = false;
      for (int i = (int)nodes.size() - 1; i >= 0; --i) {
        if (dead[i] || count(i)) continue;
        dead[i] = true;
        mchild[i] = {-1, -1};
        change = true;
      }
    }
  }
  int count(int n) {
    int k = 0;
    for (int i : mroots) k += i == n;
    for (int i : loose) k += i == n;
    for (auto& c : mchild) k += (c[0] == n) + (c[1] == n);
    return k;
  }
  void check() {
    collect();
    for (std::size_t i = 0; i < nodes.size(); ++i) {
      int want = dead[i] ? 1 : 0;
      if (fates[i]->destroyed != want) {
        fail("after", log.str(), ": node ", i, " was destroyed ", fates[i]->destroyed, " times and has ", count(i), " handles");
      }
      if (dead[i]) continue;
      if (nodes[i]->ref_count() != count(i)) {
        fail("after", log.str(), ": the count of node ", i, " is ", nodes[i]->ref_count(), " and it has ", count(i), " handles");
      }
      for (int k = 0; k < 2; ++k)
        if (at(nodes[i]->child[k]) != mchild[i][k]) fail("after", log.str(), ": handle ", k, " in node ", i, " is not to node ", mchild[i][k]);
    }
    for (std::size_t i = 0; i < roots.size(); ++i)
      if (roots[i] && at(*roots[i]) != mroots[i]) fail("after", log.str(), ": handle ", i, " is not to node ", mroots[i]);
  }

  // A handle: a root, or one in a live node.
  struct slot {
    H* h;
    int* m;
    int owner;      // nodes the handle may refer to are older than this
    std::string name;
  };
  bool pick(slot& s) {
    std::vector<slot> l;
    for (std::size_t i = 0; i < roots.size(); ++i)
      if (roots[i]) l.push_back({roots[i].get(), &mroots[i], 1000, "h" + std::to_string(i)});
    for (std::size_t i = 0; i < nodes.size(); ++i) {
      if (dead[i]) continue;
      for (int k = 0; k < 2; ++k) l.push_back({&nodes[i]->child[k], &mchild[i][k], (int)i, "n" + std::to_string(i) + ".h" + std::to_string(k)});
    }
    if (l.empty()) return false;
    s = l[r.below(l.size())];
    return true;
  }
  int empty_root() {
    for (int k = 0; k < 8; ++k) {
      int i = (int)r.below(roots.size());
      if (!roots[i]) return i;
    }
    return -1;
  }

  // What is left of a handle that was moved from: nothing, or what the destination had.
  void moved(slot& s, int old) {
    int now = at(*s.h);
    if (now != -1 && now != old) fail("after", log.str(), ": the handle that was moved from is to another node");
    *s.m = now;
  }

  void step() {
    slot a, b;
    switch (r.below(9)) {
    case 0: {   // a handle to a new node, which may have handles to older ones
      int i = empty_root();
      if (i < 0 || nodes.size() > 12) return;
      fates.emplace_back(new fate());
      N* n = new N(fates.back().get());
      log << " h" << i << " = n" << nodes.size();
      roots[i].reset(new H(N::make(n)));
      nodes.push_back(n);
      dead.push_back(false);
      mchild.push_back({-1, -1});
      mroots[i] = (int)nodes.size() - 1;
      for (int k = 0; k < 2; ++k) {
        if (r.below(2) || !pick(a) || *a.m == (int)nodes.size() - 1) continue;
        n->child[k] = *a.h;
        mchild.back()[k] = *a.m;
        log << "(" << a.name << ")";
      }
      break;
    }
    case 1: {   // copy
      int i = empty_root();
      if (i < 0 || !pick(a)) return;
      log << " h" << i << "(" << a.name << ")";
      roots[i].reset(new H(*a.h));
      mroots[i] = *a.m;
      break;
    }
    case 2: {   // move
      int i = empty_root();
      if (i < 0 || !pick(a)) return;
      log << " h" << i << "(move " << a.name << ")";
      roots[i].reset(new H(std::move(*a.h)));
      mroots[i] = *a.m;
      *a.m = -1;
      if (N::get(*a.h)) fail("after", log.str(), ": the handle that was moved from is not null");
      break;
    }
    case 3: {   // end
      int i = (int)r.below(roots.size());
      if (!roots[i]) return;
      log << " ~h" << i;
      roots[i].reset();
      mroots[i] = -2;
      break;
    }
    case 4:
    case 5: {   // assignment
      if (!pick(a) || !pick(b) || *b.m >= a.owner) return;
      log << " " << a.name << " = " << b.name;
      *a.m = *b.m;
      *a.h = *b.h;
      break;
    }
    case 6: {   // assignment of a handle in the node of the destination: the node may go away with it
      if (!pick(a) || *a.m < 0) return;
      int n = *a.m, k = (int)r.below(2);
      log << " " << a.name << " = n" << n << ".h" << k;
      *a.m = mchild[n][k];
      if (r.below(2)) {
        *a.h = nodes[n]->child[k];
      } else {
        log << " (move)";
        // The source is in a node that may go away before or after it is changed, in which case that does not matter.
        int was = mchild[n][k];
        mchild[n][k] = -1;
        *a.h = std::move(nodes[n]->child[k]);
        collect();
        if (!dead[n]) {
          int now = at(nodes[n]->child[k]);
          if (now != -1) fail("after", log.str(), ": the handle that was moved from is not null");
        }
        (void)was;
      }
      break;
    }
    case 7: {   // move assignment
      if (!pick(a) || !pick(b) || a.h == b.h || *b.m >= a.owner || *a.m >= b.owner) return;
      // A source in a node that goes away with the destination's old value is case 6.
      log << " " << a.name << " = move " << b.name;
      int old = *a.m;
      *a.m = *b.m;
      *b.m = -1;
      *a.h = std::move(*b.h);
      collect();
      bool there = b.owner == 1000 || !dead[b.owner];
      if (there) moved(b, old);
      break;
    }
    case 8: extra(); return;
    }
    check();
  }
  void extra();
};

template <typename N>
void history<N>::extra() {}

// Operations only ref_count has.
template <>
void history<plain>::extra() {
  slot a;
  if (!pick(a)) return;
  switch (r.below(6)) {
  case 4: {
    int i = empty_root();
    if (i < 0 || *a.m < 0 || nodes.size() > 12) return;
    bool move = r.below(2);
    log << " h" << i << " = n" << nodes.size() << (move ? " (move of n" : " (copy of n") << *a.m << ")";
    fates.emplace_back(new fate());
    plain* from = nodes[*a.m];
    plain* n = move ? new plain(std::move(*from), fates.back().get()) : new plain(*from, fates.back().get());
    roots[i].reset(new H(plain::make(n)));
    nodes.push_back(n);
    dead.push_back(false);
    mchild.push_back(mchild[*a.m]);
    mroots[i] = (int)nodes.size() - 1;
    break;
  }
  case 5: {
    slot b;
    if (!pick(b) || *a.m < 0 || *b.m < 0) return;
    log << " *" << a.name << " = *" << b.name << " (counts)";
    if (r.below(2)) nodes[*a.m]->assign(*nodes[*b.m]);
    else nodes[*a.m]->assign_moved(*nodes[*b.m]);
    break;
  }
  case 0: {
    plain* n = plain::get(*a.h);
    log << " take " << a.name;
    plain* t = a.h->take();
    if (t != n || plain::get(*a.h)) fail("after", log.str(), ": take gave another node or left the handle");
    if (*a.m >= 0) loose.push_back(*a.m);
    *a.m = -1;
    break;
  }
  case 1: {
    int i = empty_root();
    if (i < 0 || loose.empty()) return;
    log << " h" << i << " = assume n" << loose.back();
    roots[i].reset(new H(H::assume(nodes[loose.back()])));
    mroots[i] = loose.back();
    loose.pop_back();
    break;
  }
  case 2: {
    int n = r.below(4) ? -1 : *a.m;
    if (n < 0)
      for (std::size_t i = 0; i < nodes.size(); ++i)
        if (!dead[i] && (int)i < a.owner && r.below(2)) n = (int)i;
    log << " " << a.name << " = (pointer) n" << n;
    *a.m = n;
    *a.h = n < 0 ? nullptr : nodes[n];
    break;
  }
  case 3: {
    slinky::ref_count<const plain> c = *a.h;
    if (static_cast<const plain*>(c) != plain::get(*a.h)) fail("after", log.str(), ": the conversion is to another node");
    if (*a.m >= 0 && nodes[*a.m]->ref_count() != count(*a.m) + 1) fail("after", log.str(), ": the conversion of ", a.name, " is not counted");
    break;
  }
  }
  check();
}

template <typename N>
void run(rng& r, const char* what) {
  history<N> h(r);
  h.log << " (" << what << ")";
  int n = 4 + (int)r.below(30);
  for (int i = 0; i < n; ++i) h.step();
  describe = h.log.str();
  for (std::size_t i = 0; i < h.roots.size(); ++i) {
    if (!h.roots[i]) continue;
    h.log << " ~h" << i;
    h.roots[i].reset();
    h.mroots[i] = -2;
    h.check();
  }
}

// Several threads have handles to the same node and make and end more of them.
void together(rng& r) {
  fate f;
  int threads = 2 + (int)r.below(3), n = 50 + (int)r.below(400);
  describe = std::to_string(threads) + " threads";
  {
    std::vector<expr> first;
    {
      expr e = enode::make(new enode(&f));
      for (int i = 0; i < threads; ++i) first.push_back(e);
    }
    std::vector<std::thread> l;
    for (int i = 0; i < threads; ++i) {
      l.emplace_back([&first, i, n]() {
        expr mine = std::move(first[i]);
        for (int k = 0; k < n; ++k) {
          expr a = mine, b = a, c;
          c = b;
          a = expr();
          mine = std::move(c);
        }
      });
    }
    for (std::thread& t : l) t.join();
  }
  if (f.destroyed != 1) fail("a node that ", threads, " threads had handles to was destroyed ", f.destroyed, " times");
}
}  // namespace

void case_ref(rng& r) {
  switch (r.below(20)) {
  case 0: return together(r);
  case 1: case 2: case 3: case 4: case 5: return run<enode>(r, "expr");
  case 6: case 7: case 8: case 9: case 10: return run<snode>(r, "stmt");
  default: return run<plain>(r, "ref_count");
  }
}
}  // namespace rt
