// The recorded findings about examples/inverted_index.hpp, one per build (-DVX_KF=n); exits 0 if the defect does not show.
#include <cstdio>
#include "rt.hpp"
#include "inverted_index.hpp"
using I = InvertedIndex<unsigned>;
int main() {
#if VX_KF == 1      // a term that sorts behind all others is compared with what lies behind the last element
    I::Transient t;
    t.insert(0u, 1u);               // what the fresh leaf holds
    auto it = t.term_list().find(0u);
    return it == t.term_list().end() ? 1 : 0;
#else               // the immutable variant and the lookup by term
    I::Transient t; t.insert(1u, 2u);
    I::Persistent p = t.persistent();
    I::Persistent q = p.insert(1u, 3u);
    auto r = q.term_doc_iterator(1u);
    I::Transient u = q.transient();
    return r.second - r.first == 2 && u.term_list().size() == 1 ? 0 : 1;
#endif
}
