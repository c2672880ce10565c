// Stand-in for the header of the (absent) package cslibs_navigation_utilities.
// A priority set of node pointers: top() is the one that Compare puts last, as in a
// std::priority_queue.  A node is compared as it was when it was pushed (nodes change while
// they are queued).  The order of equal ones is a seam of the simulator: sim_tie() decides it.
#ifndef VERIF_STUB_DYNAMICPRIORITYQUEUE_H
#define VERIF_STUB_DYNAMICPRIORITYQUEUE_H
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <deque>
#include <set>
#include <type_traits>
#include <vector>

uint64_t sim_tie();                                  // tie-break rank of the next push
void     sim_on_push(const void* node, double key);  // may switch tasks
void     sim_on_pop(const void* node, double cost);  // may switch tasks; cost now
bool     sim_searching();                            // false: leftovers of an earlier search are dropped

template <class T, class Compare>
class DynamicPrioritySet {
    typedef typename std::remove_pointer<T>::type N;
    struct E { uint64_t tie; uint64_t seq; T v; std::size_t at; };
    struct Less {
        const std::vector<N>& then;
        bool operator()(const E& a, const E& b) const
        {
            const N &x = then[a.at], &y = then[b.at];
            if (Compare()(&x, &y)) return true;
            if (Compare()(&y, &x)) return false;
            if (a.tie != b.tie) return a.tie > b.tie;
            return a.seq > b.seq;
        }
    };
public:
    class const_iterator {
    public:
        typedef std::forward_iterator_tag iterator_category;
        typedef T value_type; typedef std::ptrdiff_t difference_type;
        typedef const T* pointer; typedef const T& reference;
        const_iterator() {}
        explicit const_iterator(typename std::vector<E>::const_iterator it) : it_(it) {}
        const T& operator*() const { return it_->v; }
        const_iterator& operator++() { ++it_; return *this; }
        const_iterator operator++(int) { const_iterator r(*this); ++it_; return r; }
        bool operator==(const const_iterator& o) const { return it_ == o.it_; }
        bool operator!=(const const_iterator& o) const { return it_ != o.it_; }
    private:
        typename std::vector<E>::const_iterator it_;
    };

    void push(T v)
    {
        E e; e.tie = sim_tie(); e.seq = ++seq_; e.v = v;
        if (free_.empty()) {
            e.at = then_.size();
            if (free_.capacity() <= then_.size()) free_.reserve(2 * then_.size() + 8);
            then_.push_back(*v);
            free_.push_back(e.at);
        } else {
            e.at = free_.back();
            then_[e.at] = *v;
        }
        h_.push_back(e);
        free_.pop_back();
        std::push_heap(h_.begin(), h_.end(), Less{then_});
        sim_on_push(v, v->getTotalCost());
    }
    T top() const { return h_.front().v; }
    void pop()
    {
        E e = h_.front();
        std::pop_heap(h_.begin(), h_.end(), Less{then_});
        h_.pop_back();
        free_.push_back(e.at);
        if (sim_searching()) sim_on_pop(e.v, e.v->getTotalCost());
    }
    void remove(T v)
    {
        for (std::size_t i = 0; i < h_.size(); ++i)
            if (h_[i].v == v) {
                free_.push_back(h_[i].at);
                h_.erase(h_.begin() + i);
                std::make_heap(h_.begin(), h_.end(), Less{then_});
                return;
            }
    }
    bool empty() const { return h_.empty(); }
    std::size_t size() const { return h_.size(); }
    const_iterator begin() const { return const_iterator(h_.begin()); }
    const_iterator end() const { return const_iterator(h_.end()); }
private:
    std::vector<E> h_;
    std::vector<N> then_;              // the nodes as they were when pushed
    std::vector<std::size_t> free_;    // unused places in then_; always has room for all of them
    uint64_t seq_ = 0;
};
#endif
