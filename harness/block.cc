// SmartBlock and BlockSet: contents, ownership, FIFO order, cursor
#include "sx.h"
#include <DMI/SmartBlock.h>
#include <DMI/BlockSet.h>
#include <cstdio>
#include <cstring>
#include <exception>
using namespace DMI;
static SmartBlock *mkb(const char *nm, int n, unsigned char *c) { char b[24]; SmartBlock *p = new SmartBlock(n); snprintf(b, 24, "%s_d", nm); if (n) sx_bytes(b, c, n); memcpy(p->data(), c, n); return p; }
static bool eq(const void *a, const unsigned char *b, int n) { const unsigned char *x = (const unsigned char *)a; bool ok = true; for (int i = 0; i < n; i++) ok = ok & (x[i] == b[i]); return ok; }
ENTRY block_resize() {
  unsigned char c[8], z[8]; int n = sx_choose("n", TIERED(5, 9)); bool extb = sx_choose("ext", 2); unsigned char buf[8];
  SmartBlock *p; long live0 = sx_heap_live();
  if (extb && n) { sx_bytes("c_d", c, n); memcpy(buf, c, n); p = new SmartBlock(buf, n); } else p = mkb("c", n, c);
  CHECK((int)p->size() == n && (n == 0 || eq(p->data(), c, n)), "a block holds what was put into it");
  SmartBlock *q = (SmartBlock *)p->clone(); CHECK((int)q->size() == n && q != p && (n == 0 || (q->data() != p->data() && eq(q->data(), c, n))), "a clone has its own copy of the contents");
  int m = sx_choose("m", TIERED(6, 9)); bool zero = sx_choose("zero", 2); p->resize(m, zero ? DMI::ZERO : 0);
  CHECK((int)p->size() == m, "resized"); int k = n < m ? n : m; CHECK(eq(p->data(), c, k), "resizing keeps the common part");
  if (zero) { memset(z, 0, 8); CHECK(eq((char *)p->data() + k, z, m - k), "and clears the rest on request"); }
  if (m > n) sx_reach("grow"); if (m && n) { p->cdata()[0] ^= 1; CHECK(eq(q->data(), c, n), "the clone is not affected by writes to the original"); }
  if (extb && n) CHECK(eq(buf, c, n), "external memory is left alone");
  p->destroy(); CHECK(p->size() == 0, "destroyed"); delete p; CHECK(eq(q->data(), c, n), "the clone outlives the original"); delete q; CHECK(sx_heap_live() == live0, "no memory is lost"); sx_reach("end");
}
// BlockSet histories against a simple queue model
static unsigned char val[16][3]; static int len[16];
static int q[3][16], nq[3];
static void checkSet(const BlockSet &s, int k) {
  CHECK(s.size() == nq[k], "size is the number of blocks"); CHECK(s.empty() == (nq[k] == 0), "empty"); int i = 0; bool ok = true;
  for (BlockSet::const_iterator it = s.begin(); it != s.end(); ++it, i++) ok = ok && i < nq[k] && it->valid() && (int)(*it)->size() == len[q[k][i]] && eq((*it)->data(), val[q[k][i]], len[q[k][i]]);
  CHECK(ok && i == nq[k], "blocks are in order, with their contents");
}
ENTRY blockset_history() {
  BlockSet s[2]; nq[0] = nq[1] = 0; int nb = 0; char b[24]; int K = TIERED(3, 4);
  for (int i = 0; i < 2; i++) { len[nb] = i + 1; snprintf(b, 24, "b%d", nb); SmartBlock *p = mkb(b, len[nb], val[nb]); s[0].push(BlockRef(p)); q[0][nq[0]++] = nb++; }
  for (int k = 0; k < K; k++) {
    snprintf(b, 24, "op%d", k); int op = sx_choose(b, 9); snprintf(b, 24, "s%d", k); int x = sx_choose(b, 2), y = 1 - x;
    switch (op) {
    case 0: case 1: { len[nb] = nb % 3; snprintf(b, 24, "b%d", nb); BlockRef r(mkb(b, len[nb], val[nb])); int ret = op == 0 ? s[x].push(r) : s[x].pushFront(r); if (op == 0) q[x][nq[x]] = nb; else { for (int i = nq[x]; i > 0; i--) q[x][i] = q[x][i - 1]; q[x][0] = nb; } nb++; nq[x]++; CHECK(ret == nq[x], "push reports the new size"); break; }
    case 2: case 3: if (nq[x]) { BlockRef o; if (op == 2) o = s[x].pop(); else s[x].pop(o); int h = q[x][0]; CHECK((int)o->size() == len[h] && eq(o->data(), val[h], len[h]), "pop returns the oldest block"); for (int i = 1; i < nq[x]; i++) q[x][i - 1] = q[x][i]; nq[x]--; sx_reach("pop"); } break;
    case 4: { snprintf(b, 24, "n%d", k); int n = sx_choose(b, 4); bool thr = false; try { s[x].popMove(s[y], n); } catch (std::exception &) { thr = true; } CHECK(thr == (n > nq[x]), "moving more blocks than present is refused"); if (!thr) { for (int i = 0; i < n; i++) q[y][nq[y]++] = q[x][i]; for (int i = n; i < nq[x]; i++) q[x][i - n] = q[x][i]; nq[x] -= n; if (n) sx_reach("move"); } break; }
    case 5: { s[x].pushCopy(s[y]); int n = nq[y]; for (int i = 0; i < n; i++) q[x][nq[x]++] = q[y][i]; break; }
    case 6: { s[x].copyAll(s[y]); nq[y] = nq[x]; for (int i = 0; i < nq[x]; i++) q[y][i] = q[x][i]; break; }
    case 7: s[x].clear(); nq[x] = 0; break;
    default: { // write through one set's block: other sets must not see it
      if (!nq[x]) break; s[x].privatizeAll(); int h = q[x][0]; if (!len[h]) break; len[nb] = len[h]; memcpy(val[nb], val[h], 3); val[nb][0] ^= 0x55; s[x].begin()->dewr().cdata()[0] ^= 0x55; q[x][0] = nb++; sx_reach("write"); }
    }
    checkSet(s[0], 0); checkSet(s[1], 1);
  }
  sx_reach("end");
}
ENTRY blockset_cursor() {
  BlockSet s; nq[0] = 0; int tot = 0; char b[24]; unsigned char all[16]; int n = sx_choose("n", TIERED(4, 5));
  for (int i = 0; i < n; i++) { snprintf(b, 24, "len%d", i); len[i] = sx_choose(b, 4); snprintf(b, 24, "b%d", i); s.push(BlockRef(mkb(b, len[i], val[i]))); memcpy(all + tot, val[i], len[i]); q[0][nq[0]++] = i; tot += len[i]; }
  CHECK((int)s.initCursor() == tot, "total size"); int pos = 0, calls = 0; size_t sz = 1 + sx_choose("chunk", 3); size_t want = sz; int stop = sx_choose("stop", 5); const void *p;
  while (calls < stop && (p = s.getCursorData(sz)) != 0) { CHECK(sz > 0 && (int)sz <= (int)want && pos + (int)sz <= tot, "chunk within bounds"); CHECK(eq(p, all + pos, sz), "the cursor delivers the bytes in order"); pos += sz; sz = want; calls++; }
  if (calls < stop) CHECK(pos == tot, "the cursor ends after the last byte");
  // discard what has been consumed
  int done = 0, rest = pos; while (done < n && rest >= len[done]) { rest -= len[done]; done++; }
  int r = s.flushToCursor(); CHECK(r == done, "flush reports the number of blocks discarded"); for (int i = done; i < n; i++) q[0][i - done] = q[0][i]; nq[0] -= done; checkSet(s, 0); if (done && done < n) sx_reach("flush");
  sx_reach("end");
}
