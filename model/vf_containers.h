/* Assumed contracts of the standard containers and promises used by the glue code, as executable stand-ins (force-included before
 * the code of /repo for the glue units).  They are partial specialisations of the std templates, so the code of /repo is compiled
 * unchanged against them.
 *
 * unordered_map<string, V>: a map whose content is arbitrary until looked at: the first lookup of a key decides, for every possible
 *   answer, whether the key is present; iterating visits an arbitrary number of arbitrary entries, each once.
 * queue<T>: a FIFO whose front element is arbitrary (supplied by the harness).
 * promise/future<CallResult>: a result that can be set once. */
#ifndef VF_CONTAINERS_H_
#define VF_CONTAINERS_H_
#include <string>
#include <unordered_map>
#include <queue>
#include <deque>
#include <future>
#include <vector>
#include <memory>
#include "vf.h"

template <class V>
struct vfm {
    static void arbitrary(const void* map, const std::string& key, V& out);   // an arbitrary value stored under key
    static void arbitraryKey(const void* map, std::string& key);
    static void visited(const void* map, const std::string& key, V& v);       // an iteration leaves this entry behind
    static void access(const void* map, bool write);                          // every access
    static void cleared(const void* map);
    static void looked(const void* map, const std::string& key, bool present);   // the presence of a key has been decided
    static void erased(const void* map, const std::string& key);              // an existing entry is being erased
};
template <class T>
struct vfq {
    static bool more(const void* q);               // is there another element?
    static void arbitrary(const void* q, T& out);  // an arbitrary front element
    static void popped(const void* q, T& t);
    static void pushed(const void* q, const T& t);
};

namespace std {
template <class V>
class unordered_map<string, V, hash<string>, equal_to<string>, allocator<pair<const string, V>>> {
   public:
    enum { CAP = 3 };
    typedef pair<string, V> value_type;
    typedef string key_type;
    typedef V mapped_type;
    typedef size_t size_type;
    struct item { value_type kv; bool known, present; };
    item items[CAP];
    bool open;       // keys that have not been looked at may be present
    item cur;        // entry an iteration over the unknown part is looking at

    bool more;       // ... and whether there is one
    bool late;       // the known entries come after the unknown part

    struct iterator {
        typedef forward_iterator_tag iterator_category;
        typedef pair<string, V> value_type;
        typedef ptrdiff_t difference_type;
        typedef value_type* pointer;
        typedef value_type& reference;
        unordered_map* m; int i;      // 0..CAP-1: a known entry, CAP: the unknown part (while m->more), CAP+1: end
        iterator() : m(nullptr), i(0) {}
        iterator(unordered_map* mm, int ii) : m(mm), i(ii) {}
        bool atEnd() const { return i == CAP + 1 || (i == CAP && !m->more); }
        reference operator*() const { vf_assert(!atEnd(), "an iterator is only dereferenced before the end"); return i == CAP ? m->cur.kv : m->items[i].kv; }
        pointer operator->() const { return &**this; }
        bool operator==(const iterator& o) const { return atEnd() || o.atEnd() ? atEnd() && o.atEnd() : i == o.i; }
        bool operator!=(const iterator& o) const { return !(*this == o); }
        iterator& operator++() { m->step(*this); return *this; }
        iterator operator++(int) { iterator t = *this; m->step(*this); return t; }
    };
    typedef iterator const_iterator;

    unordered_map() : open(false), more(false), late(false) { for (int i = 0; i < CAP; i++) items[i].known = items[i].present = false; cur.known = cur.present = false; }
    ~unordered_map() {}
    iterator end() const { return iterator(self(), CAP + 1); }
    iterator cend() const { return end(); }
    iterator begin() const {
        vfm<V>::access(this, false);
        for (int i = 0; i < CAP; i++)
            if (items[i].known && items[i].present) return open && vf_bool("the iteration starts with another entry") ? self()->unknown(true) : self()->from(0, false);
        return self()->unknown(false);
    }
    iterator cbegin() const { return begin(); }
    iterator find(const string& k) const {
        vfm<V>::access(this, false);
        int i = self()->slot(k, false);
        return i >= 0 && items[i].present ? iterator(self(), i) : end();
    }
    size_t count(const string& k) const { return find(k) == end() ? 0 : 1; }
    V& at(const string& k) { iterator it = find(k); if (it == end()) throw std::out_of_range("at"); return it->second; }
    V& operator[](const string& k) {
        vfm<V>::access(this, true);
        int i = slot(k, true);
        if (!items[i].present) { items[i].present = true; items[i].kv.second = V(); }
        return items[i].kv.second;
    }
    iterator erase(iterator it) {
        vfm<V>::access(this, true);
        vf_assert(it.i < CAP && items[it.i].present, "only an existing entry is erased");
        vfm<V>::erased(this, items[it.i].kv.first);
        items[it.i].present = false;
        items[it.i].kv.second = V();
        return it;
    }
    iterator erase(iterator f, iterator l) {
        vfm<V>::access(this, true);
        while (f != l) {
            vfm<V>::erased(this, f->first);
            if (f.i < CAP) items[f.i].present = false;
            f->second = V();
            step(f);
        }
        return f;
    }
    size_t erase(const string& k) {
        vfm<V>::access(this, true);
        int i = slot(k, false);
        if (i < 0 || !items[i].present) return 0;
        vfm<V>::erased(this, k);
        items[i].present = false;
        items[i].kv.second = V();
        return 1;
    }
    pair<iterator, bool> insert(const value_type& p) { return emplace(p.first, p.second); }
    pair<iterator, bool> insert(value_type&& p) { return emplace(std::move(p.first), std::move(p.second)); }
    template <class P>
    pair<iterator, bool> emplace(P&& p) { return emplace(std::forward<P>(p).first, std::forward<P>(p).second); }
    void reserve(size_t) {}
    template <class P>
    pair<iterator, bool> insert(P&& p) { return emplace(std::forward<P>(p).first, std::forward<P>(p).second); }
    template <class K, class X>
    pair<iterator, bool> emplace(K&& k, X&& x) {
        vfm<V>::access(this, true);
        string key(std::forward<K>(k));
        int i = slot(key, true);
        if (items[i].present) return pair<iterator, bool>(iterator(self(), i), false);
        items[i].present = true;
        items[i].kv.second = V(std::forward<X>(x));
        return pair<iterator, bool>(iterator(self(), i), true);
    }
    void clear() {
        vfm<V>::access(this, true);
        vfm<V>::cleared(this);
        open = false;
        for (int i = 0; i < CAP; i++) { items[i].known = items[i].present = false; items[i].kv.second = V(); }
    }
    bool empty() const {
        vfm<V>::access(this, false);
        for (int i = 0; i < CAP; i++) if (items[i].known && items[i].present) return false;
        return !open || vf_bool("the map is empty");
    }
    size_t size() const {
        vfm<V>::access(this, false);
        size_t n = 0;
        for (int i = 0; i < CAP; i++) if (items[i].known && items[i].present) n++;
        return open ? n + (size_t)vf_range("other entries", 0, 1 << 30) : n;
    }

    // ---- for the harness
    void forget(bool o) { for (int i = 0; i < CAP; i++) { items[i].known = items[i].present = false; items[i].kv.first.clear(); items[i].kv.second = V(); } cur.kv.first.clear(); cur.kv.second = V(); more = late = false; open = o; }
    unordered_map* self() const { return const_cast<unordered_map*>(this); }
    int slot(const string& k, bool create) {
        for (int i = 0; i < CAP; i++) if (items[i].known && items[i].kv.first == k) return i;
        if (!open && !create) return -1;
        for (int i = 0; i < CAP; i++)
            if (!items[i].known) {
                items[i].known = true;
                items[i].kv.first = k;
                items[i].present = open && vf_bool("the map contains the key");
                if (items[i].present) vfm<V>::arbitrary(this, k, items[i].kv.second);
                vfm<V>::looked(this, k, items[i].present);
                return i;
            }
        vf_assert(false, "model: capacity of the map stand-in");
        return 0;
    }
    iterator from(int i, bool l) {
        late = l;
        for (; i < CAP; i++) if (items[i].known && items[i].present) return iterator(this, i);
        return l ? end() : unknown(false);
    }
    iterator unknown(bool l) { late = l; next(); return l && !more ? from(0, true) : iterator(this, CAP); }
    void next() {
        more = open && vf_bool("the iteration has another entry");
        if (more) {
            vfm<V>::arbitraryKey(this, cur.kv.first);
            for (int i = 0; i < CAP; i++) if (items[i].known) vf_assume(!vf_str_eq(cur.kv.first, items[i].kv.first));
            vfm<V>::arbitrary(this, cur.kv.first, cur.kv.second);
        }
    }
    void step(iterator& it) {
        if (it.i < CAP) { vfm<V>::visited(this, items[it.i].kv.first, items[it.i].kv.second); it = from(it.i + 1, late); return; }
        vfm<V>::visited(this, cur.kv.first, cur.kv.second);
        cur.kv.second = V();
        it = unknown(late);
    }
};
template <class V>
typename unordered_map<string, V>::iterator begin(unordered_map<string, V>& m) { return m.begin(); }

template <class T>
class queue<T, deque<T>> {
   public:
    T slot;
    bool have;
    queue() : have(false) {}
    void need() { if (!have) { vf_assert(vfq<T>::more(this), "C02,C10/an element is only taken from a non-empty list"); vfq<T>::arbitrary(this, slot); have = true; } }
    bool empty() const {
        if (have) return false;
        if (!vfq<T>::more(this)) return true;
        queue* q = const_cast<queue*>(this);
        vfq<T>::arbitrary(this, q->slot);
        q->have = true;
        return false;
    }
    size_t size() const { return empty() ? 0 : 1 + (size_t)vf_range("further elements", 0, 1 << 30); }
    T& front() { need(); return slot; }
    const T& front() const { const_cast<queue*>(this)->need(); return slot; }
    void push(T&& t) { vfq<T>::pushed(this, t); }
    void pop() { need(); vfq<T>::popped(this, slot); slot = T(); have = false; }
    void push(const T& t) { vfq<T>::pushed(this, t); }
    template <class... A>
    void emplace(A&&... a) { vfq<T>::pushed(this, T(std::forward<A>(a)...)); }
};
}  // namespace std

namespace veigar { class CallResult; }
struct VfShared;
namespace std {
template <>
class future<veigar::CallResult> {
   public:
    shared_ptr<VfShared> s;
    future() noexcept {}
    future(future&& o) noexcept : s(std::move(o.s)) {}
    future& operator=(future&& o) noexcept { s = std::move(o.s); return *this; }
    bool valid() const noexcept { return !!s; }
    veigar::CallResult get();
};
template <>
class promise<veigar::CallResult> {
   public:
    shared_ptr<VfShared> s;
    promise();
    promise(promise&& o) noexcept : s(std::move(o.s)) {}
    future<veigar::CallResult> get_future();
    void set_value(veigar::CallResult&& r);
};
}  // namespace std
#endif
