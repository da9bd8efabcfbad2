// Executable contract of D04: ownership, copies and comparison of descriptor references, over random histories.
#include "desc.h"
#include <new>
// allocation ledger: every array is freed exactly once, with the matching form
static long g_arrays = 0;
static void* get(size_t n, uint64_t tag) { char* p = (char*)malloc(n + 16); if (!p) abort(); *(uint64_t*)p = tag; return p + 16; }
static void put(void* p, uint64_t tag) { if (!p) return; char* q = (char*)p - 16; if (*(uint64_t*)q != tag) rp::fail("memory is freed in the wrong form or not owned"); *(uint64_t*)q = 0xdead; free(q); }
void* operator new(size_t n) { return get(n, 0x1111); }
void operator delete(void* p) noexcept { put(p, 0x1111); }
void operator delete(void* p, size_t) noexcept { put(p, 0x1111); }
void* operator new[](size_t n) { ++g_arrays; return get(n, 0x2222); }
void operator delete[](void* p) noexcept { if (p) --g_arrays; put(p, 0x2222); }
void operator delete[](void* p, size_t) noexcept { if (p) --g_arrays; put(p, 0x2222); }
static const int N = 5; 
struct Model { bool alive = false; bool owned = false; unsigned char* ptr = nullptr; size_t n = 0; Bytes content; int ext = -1; };
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("d04"); FLAGS_minloglevel = 3;
  typedef FeatureDescriptorRef R;
  while (rp::more()) {
    std::unique_ptr<Buf> ext[3]; for (auto& e : ext) e.reset(new Buf(rbytes(16 * rp::rnd(1, 3))));
    alignas(16) unsigned char mem[N][sizeof(R)]; Model m[N]; R* r[N]; for (int i = 0; i < N; ++i) { memset(mem[i], rp::rnd(0, 1) ? 0xAB : 0x01, sizeof(R)); r[i] = reinterpret_cast<R*>(mem[i]); }
    const long arrays0 = g_arrays; std::string hist; int steps = rp::rnd(2, 14);
    auto content = [&](int i) -> Bytes { return m[i].ext >= 0 ? ext[m[i].ext]->get() : m[i].content; };
    auto verify = [&] {
      for (int i = 0; i < N; ++i) if (m[i].alive) {
        EXPECT(r[i]->size() == m[i].n || (!r[i]->data() && m[i].ptr == nullptr), "a descriptor has the wrong size");
        if (m[i].ext >= 0) EXPECT(r[i]->data() == ext[m[i].ext]->p, "an aliasing descriptor does not point to its source");
        if (m[i].owned) { EXPECT(r[i]->data() != nullptr || m[i].n == 0, "an owning descriptor has no buffer"); for (int j = 0; j < N; ++j) if (j != i && m[j].alive && m[j].owned && m[i].n) EXPECT(r[i]->data() != r[j]->data(), "two owners share a buffer"); for (auto& e : ext) EXPECT(r[i]->data() != e->p, "an owner points to foreign memory"); }
        if (m[i].owned || m[i].ext >= 0) { Bytes c = content(i); if (c.size()) EXPECT(memcmp(r[i]->data(), c.data(), c.size()) == 0, "a descriptor has the wrong content"); }
        else EXPECT(r[i]->data() == nullptr, "an empty descriptor points somewhere");
      }
      for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (m[i].alive && m[j].alive) {
        bool ni = r[i]->data() == nullptr, nj = r[j]->data() == nullptr; bool eq = ni == nj && r[i]->size() == r[j]->size() && (ni || content(i) == content(j));
        EXPECT((*r[i] == *r[j]) == eq, "equality differs from size, null-ness and bytes"); FeatureDescriptorConstRef a = r[i]->ToConstRef(), b = r[j]->ToConstRef(); EXPECT((a == b) == eq, "equality of read-only references differs"); EXPECT(a.data() == r[i]->data() && a.size() == r[i]->size(), "a read-only reference differs from its source");
        FeatureDescriptorConstRef c(a); EXPECT(c.data() == a.data() && c.size() == a.size(), "a copied read-only reference differs"); c = b; EXPECT(c.data() == b.data() && c.size() == b.size(), "an assigned read-only reference differs");
      }
    };
    for (int s = 0; s < steps; ++s) {
      int i = rp::rnd(0, N - 1), j = rp::rnd(0, N - 1), op = rp::rnd(0, 11); char b[80];
      if (!m[i].alive) {
        op %= 4; if (op == 3 && (!m[j].alive || i == j)) op = 0;
        if (op == 0) { snprintf(b, 80, "new %d; ", i); hist += b; rp::CASES(hist); new (mem[i]) R(); m[i] = Model(); m[i].alive = true; }
        else if (op == 1) { int e = rp::rnd(0, 2); snprintf(b, 80, "new %d wraps buffer %d; ", i, e); hist += b; rp::CASES(hist); new (mem[i]) R(ext[e]->p, ext[e]->n, false); m[i] = Model(); m[i].alive = true; m[i].ext = e; m[i].ptr = ext[e]->p; m[i].n = ext[e]->n; }
        else if (op == 2) { uint32_t n = rp::rnd(0, 5) ? 16 * rp::rnd(1, 3) : 0; snprintf(b, 80, "new %d of %u bytes; ", i, n); hist += b; rp::CASES(hist); new (mem[i]) R(n); m[i] = Model(); m[i].alive = m[i].owned = true; m[i].n = n; m[i].content = rbytes(n); if (n) memcpy(r[i]->data(), m[i].content.data(), n); m[i].ptr = r[i]->data(); }
        else { snprintf(b, 80, "new %d copies %d; ", i, j); hist += b; rp::CASES(hist); new (mem[i]) R(*r[j]); Model k = m[j]; m[i] = k; if (k.owned) m[i].ptr = r[i]->data(); }
      } else if (op <= 4) {     // assignment
        if (!m[j].alive) continue;
        if (i != j && (m[i].owned || m[j].owned) && !m[j].owned && m[j].ext < 0 && m[j].n != 0) continue;
        snprintf(b, 80, "%d = %d; ", i, j); hist += b; rp::CASES(hist); if (i != j && m[i].owned && !m[j].owned && m[j].ext < 0) continue;
        *r[i] = *r[j];
        if (i != j) { if (m[i].owned || m[j].owned) { Bytes c = content(j); m[i] = Model(); m[i].alive = m[i].owned = true; m[i].n = c.size(); m[i].content = c; m[i].ptr = r[i]->data(); } else { Model k = m[j]; m[i] = k; } }
      } else if (op == 5) { snprintf(b, 80, "destroy %d; ", i); hist += b; rp::CASES(hist); r[i]->~R(); m[i] = Model(); memset(mem[i], 0x01, sizeof(R)); }
      else if (op == 6) { size_t n = 16 * rp::rnd(1, 3); snprintf(b, 80, "allocate %d %zu bytes; ", i, n); hist += b; rp::CASES(hist); Bytes old = content(i); bool keep = m[i].owned && m[i].n == n; r[i]->Allocate(n); m[i] = Model(); m[i].alive = m[i].owned = true; m[i].n = n; if (keep) m[i].content = old; else { m[i].content = rbytes(n); memcpy(r[i]->data(), m[i].content.data(), n); } m[i].ptr = r[i]->data(); }
      else if (op == 7 && m[i].owned) { snprintf(b, 80, "release %d; ", i); hist += b; rp::CASES(hist); r[i]->Release(); EXPECT(r[i]->data() == nullptr, "a released descriptor still points to its buffer"); r[i]->Release(); size_t n = r[i]->size(); m[i] = Model(); m[i].alive = true; m[i].n = n; }
      else if (op == 7) { snprintf(b, 80, "release %d; ", i); hist += b; rp::CASES(hist); r[i]->Release(); }
      else if (op == 8 && (m[i].owned || m[i].ext >= 0)) { snprintf(b, 80, "zero %d; ", i); hist += b; rp::CASES(hist); r[i]->SetZero(); if (m[i].ext >= 0) { for (unsigned char c : ext[m[i].ext]->get()) EXPECT(c == 0, "SetZero leaves a byte"); } else std::fill(m[i].content.begin(), m[i].content.end(), 0); }
      else if (op == 9 && (m[i].owned || m[i].ext >= 0) && m[i].n) { size_t k = rp::rnd(0, m[i].n - 1); unsigned char v = rp::rnd(0, 255); snprintf(b, 80, "write %d[%zu]; ", i, k); hist += b; rp::CASES(hist); (*r[i])[k] = v; if (m[i].ext >= 0) EXPECT(ext[m[i].ext]->p[k] == v, "a write does not reach the aliased memory"); else m[i].content[k] = v; const R& cr = *r[i]; EXPECT(cr[k] == v, "a read returns another byte"); }
      else if (op == 10 && (m[i].owned || m[i].ext >= 0)) { snprintf(b, 80, "copy of %d in a scope; ", i); hist += b; rp::CASES(hist); { R t(*r[i]); EXPECT(t == *r[i], "a copy differs from its source"); if (m[i].owned && m[i].n) EXPECT(t.data() != r[i]->data(), "the copy of an owner shares its buffer"); std::vector<R> vec(2, *r[i]); vec.push_back(t); EXPECT(vec[2] == t, "a copy in a vector differs"); } }
      else if (op == 11) { snprintf(b, 80, "%d = itself; ", i); hist += b; rp::CASES(hist); R& x = *r[i]; *r[i] = x; }
      verify();
    }
    rp::CASES(hist + "destroy all"); for (int i = 0; i < N; ++i) if (m[i].alive) r[i]->~R();
    EXPECT(g_arrays == arrays0, "owned memory is not released exactly once");
  }
  return rp::done();
}
