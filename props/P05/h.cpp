#include "vh.h"
#include "vstd.h"
#include <mpi.h>
#define private public
#define protected public
#include "scalar/scalarField.cpp"
#undef private
#undef protected

// A message passing layer that records what is posted. One process per rank: what a rank posts is recorded on its own,
// function-local statics are per process, so their initialisers run again for the other rank.
struct Op { bool recv; char *buf; long n; int peer, tag, state; };      // state: 0 initialised, 1 started, 2 completed, 3 freed
struct Rank { int id, n; Op op[48]; Scalar *f; char *m, *v, *m2; };
static Rank RA, RB, *me;
static long nsplit;
extern "C" {
int __cxa_guard_acquire(long long *) { return 1; }
void __cxa_guard_release(long long *) {}
static int post(bool recv, const void *buf, int count, MPI_Datatype t, int peer, int tag, MPI_Comm c, MPI_Request *r) {
  v_assert(me->n < 48 && t == MPI_BYTE && c == MPI_COMM_WORLD && count >= 0 && tag >= 0, "a message is a byte count in the range of MPI's int, between ranks of the world");
  Op *o = &me->op[me->n++];
  o->recv = recv; o->buf = (char *) buf; o->n = count; o->peer = peer; o->tag = tag; o->state = 0;
  *r = (MPI_Request) o;
  return 0;
}
int MPI_Send_init(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r) { return post(false, buf, count, t, dst, tag, c, r); }
int MPI_Recv_init(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) { return post(true, buf, count, t, src, tag, c, r); }
int MPI_Start(MPI_Request *r) { Op *o = (Op *) *r; v_assert(o->state == 0, "a message is started once"); o->state = 1; return 0; }
int MPI_Isend(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r) { post(false, buf, count, t, dst, tag, c, r); return MPI_Start(r); }
int MPI_Irecv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) { post(true, buf, count, t, src, tag, c, r); return MPI_Start(r); }
int MPI_Wait(MPI_Request *r, MPI_Status *) {
  Op *o = (Op *) *r;
  v_assert(o->state == 1, "only started messages are waited for");
  o->state = 2; return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *) { for (int i = 0; i < n; i++) MPI_Wait(r + i, 0); return 0; }
int MPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) MPI_Start(r + i); return 0; }
int MPI_Request_free(MPI_Request *r) { Op *o = (Op *) *r; v_assert(o->state == 2, "a request is freed after its message completed"); o->state = 3; return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { v_assert(t == MPI_BYTE, "byte messages"); *s = 1; return 0; }
}
int commRank() { return me->id; }
int commSize() { return nsplit; }

static const long MAXC = 2147483584;
struct Geo { long Ng, ng, n2, n3, fs, S, G, own; };       // bytes: S of a slice, G of a ghost zone, own of the sites of a rank
static char *buffer(const char *nm, long n) {
#ifdef V_SYM
  return v_array<char>(nm, n);
#else
  static long next = 1L << 44; char *p = (char *) next; next += n + 4096; return p;
#endif
}
static void mkrank(Rank &R, int id, const Geo &g, bool pax, const char *a, const char *b, const char *c, const char *nm) {
  R.id = id; R.n = 0;
  Scalar *f = R.f = v_zeroed<Scalar>(nm);
  f->n2 = g.n2; f->n3 = g.n3; f->Ng = g.Ng; f->fSize = g.fs; f->device = DEV_CPU; f->fieldType = pax ? FIELD_PAXION : FIELD_SAXION;
  f->precision = g.fs == 4 ? FIELD_SINGLE : FIELD_DOUBLE;
  *(int *) &f->nSplit = nsplit;
  f->m = R.m = buffer(a, g.own + 2*g.G); f->m2 = R.m2 = buffer(c, g.own + 2*g.G); f->v = R.v = buffer(b, pax ? g.own + 2*g.G : g.own);
}
// how many ranks, which one, and the one after it
static void ranks(int &a, int &b) {
  int k = v_choose(3);
  if (k == 0) { nsplit = 1; a = b = 0; return; }
  if (k == 1) { nsplit = 2; a = v_choose(2); b = 1 - a; return; }
  nsplit = v_int("ranks", 3, 1 << 20, 3, 9);
  if (v_choose(2)) { a = nsplit - 1; b = 0; } else { a = v_int("rank", 0, (1 << 20) - 2, 0, 7); v_assume(a + 1 < nsplit); b = a + 1; }
}
static Geo geo(int maxChunks, bool part) {
  Geo g; g.Ng = 1 + v_choose(4); g.ng = part ? 1 + v_choose((int) g.Ng) : g.Ng;
  int k = v_choose(4); g.fs = 4 << (k == 3 ? 2 : k);
  int ch = v_choose(maxChunks);
  long per = g.ng*g.fs;
  g.n2 = v_int("n2", 1, 1L << 32, 1, 2000000000); if (v_choose(2)) v_assume(g.n2*per == ch*MAXC); else v_assume(g.n2*per > ch*MAXC && g.n2*per < (ch + 1)*MAXC);
  long Lz = v_int("Lz", 1, 1 << 16, 1, 9); v_assume(Lz >= g.Ng);
  g.n3 = g.n2*Lz; g.S = g.n2*g.fs; g.G = g.S*g.Ng; g.own = g.n3*g.fs;
  return g;
}
// the send of rank s that receive k of rank r gets: MPI matches in the order of posting per sender, receiver and tag
static int match(const Rank &r, int k, const Rank &s) {
  int nth = 0;
  for (int i = 0; i < k; i++) if (r.op[i].recv && r.op[i].peer == r.op[k].peer && r.op[i].tag == r.op[k].tag) nth++;
  for (int i = 0; i < s.n; i++) if (!s.op[i].recv && s.op[i].peer == r.id && s.op[i].tag == r.op[k].tag) { if (nth == 0) return i; nth--; }
  return -1;
}
// bytes [dst, dst + n) of rank r hold, after the exchange, bytes [src, src + n) of rank s
static void delivered(const Rank &r, char *dst, const Rank &s, const char *src, long n, const char *what) {
  V_FORALL(byte, 0, n) {
    int cnt = 0; bool good = true;
    for (int k = 0; k < r.n; k++) if (r.op[k].recv) {
      long off = (dst + byte) - r.op[k].buf;
      if (off >= 0 && off < r.op[k].n) {
        cnt++;
        v_assert(r.op[k].peer == s.id, "a ghost zone is received from the rank that owns its slices");
        int q = match(r, k, s);
        v_assert(q >= 0, "every message received is sent");
        good = good && q >= 0 && s.op[q].n == r.op[k].n && s.op[q].buf + off == src + byte;
      }
    }
    v_assert(cnt == 1, "every byte of a ghost zone is received once");
    v_assert(good, what);
#ifndef V_SYM
    if (byte > 2) byte += n/7;          // sampled
#endif
  }
}
static void sane(const Rank &r, char *front, char *back, long n) {
  for (int k = 0; k < r.n; k++) {
    v_assert(r.op[k].state == 3, "every message is started, completed and its request freed");
    if (r.op[k].recv) v_assert((r.op[k].buf >= front && r.op[k].buf + r.op[k].n <= front + n) || (r.op[k].buf >= back && r.op[k].buf + r.op[k].n <= back + n), "messages are received into ghost zones only");
  }
}
static char *base(const Rank &r, FieldIndex i) { return i == FIELD_M ? r.m : i == FIELD_V ? r.v : r.m2; }

// cfg = 100*call + 10*field + chunks; call 0: sendGhosts posted then completed, 1: separate send and receive, 2: sendGhosts2, 3: exchangeGhosts
static void exchange(Rank &R, int call, FieldIndex fi, int ng) {
  me = &R;
  if (call == 0) { R.f->sendGhosts(fi, COMM_SDRV); R.f->sendGhosts(fi, COMM_WAIT); }
  if (call == 1) { R.f->sendGhosts(fi, COMM_RECV); R.f->sendGhosts(fi, COMM_SEND); R.f->sendGhosts(fi, COMM_WAIT); }
  if (call == 2) { R.f->sendGhosts2(fi, COMM_SDRV, ng); R.f->sendGhosts2(fi, COMM_WAIT, ng); }
  if (call == 3) R.f->exchangeGhosts(fi);
  if (call == 4) { R.f->sendGhosts2(fi, COMM_RECV, ng); R.f->sendGhosts2(fi, COMM_SEND, ng); R.f->sendGhosts2(fi, COMM_WAIT, ng); }
}
V_ENTRY(h_ghosts) {
  int call = cfg/100, fl = cfg/10%10; FieldIndex fi = fl == 0 ? FIELD_M : fl == 1 ? FIELD_V : FIELD_M2;
  int a, b; ranks(a, b);
  Geo g = geo(cfg%10, call == 2 || call == 4);
  mkrank(RA, a, g, fl == 1, "mA", "vA", "m2A", "A"); mkrank(RB, b, g, fl == 1, "mB", "vB", "m2B", "B");
  int ng = g.ng;
  exchange(RA, call, fi, ng);
  if (a != b) exchange(RB, call, fi, ng);
  Rank &N = a != b ? RB : RA;
  v_cover("ghosts are exchanged");
  char *A = base(RA, fi), *B = base(N, fi); long w = ng*g.S;
  delivered(RA, A + g.G + g.own, N, B + g.G, w, "the back ghost zone gets the first slices of the next rank");
  delivered(N, B + g.G - w, RA, A + g.own + g.G - w, w, "the front ghost zone gets the last slices of the previous rank");
  sane(RA, A + g.G - w, A + g.G + g.own, w); sane(N, B + g.G - w, B + g.G + g.own, w);
}
// exchange of two general buffers; cfg: bit 0 backward, bit 1 forward (a direction is switched off by equal pointers)
V_ENTRY(h_general) {
  int a, b; ranks(a, b); bool bk = cfg & 1, fw = cfg & 2;
  Geo g; g.Ng = 1; g.fs = 4; g.n2 = 1; g.n3 = 1; g.S = g.G = g.own = 4;
  mkrank(RA, a, g, false, "mA", "vA", "m2A", "A"); mkrank(RB, b, g, false, "mB", "vB", "m2B", "B");
  int ch = v_choose(4);
  long n = v_int("count", 0, 1L << 36, 0, 1L << 34); if (v_choose(2)) v_assume(n == ch*MAXC); else v_assume(n > ch*MAXC && n < (ch + 1)*MAXC);
  char *sA = buffer("bufA", 4*n), *rA = sA + n, *tA = rA + n, *qA = tA + n, *sB = buffer("bufB", 4*n), *rB = sB + n, *tB = rB + n, *qB = tB + n;
  if (!bk) { rA = sA; rB = sB; } if (!fw) { qA = tA; qB = tB; }
  me = &RA; RA.f->sendGeneral(COMM_SDRV, n, MPI_BYTE, sA, rA, tA, qA); RA.f->sendGeneral(COMM_WAIT, n, MPI_BYTE, sA, rA, tA, qA);
  if (a != b) { me = &RB; RB.f->sendGeneral(COMM_SDRV, n, MPI_BYTE, sB, rB, tB, qB); RB.f->sendGeneral(COMM_WAIT, n, MPI_BYTE, sB, rB, tB, qB); }
  else { sB = sA; rB = rA; tB = tA; qB = qA; }
  Rank &N = a != b ? RB : RA;
  v_cover("buffers are exchanged");
  if (bk) delivered(RA, rA, N, sB, n, "the buffer received from the next rank is the one it sends backward");
  if (fw) delivered(N, qB, RA, tA, n, "the buffer received from the previous rank is the one it sends forward");
  for (int k = 0; k < RA.n; k++) v_assert(RA.op[k].state == 3, "every message is started, completed and its request freed");
  if (!bk && !fw) v_assert(RA.n == 0, "a direction that is switched off sends nothing");
}
