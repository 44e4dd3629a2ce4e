from mk import mk
H='''#include <DMI/HIID.h>
#include <DMI/SmartBlock.h>
#include <DMI/BlockSet.h>
#include <DMI/Timestamp.h>
#include <DMI/CountedRef.h>
#include <cstdio>
#include <cstring>
#include <pthread.h>
using namespace DMI; using namespace std;
#define NEED(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); return 1; } } while (0)
'''
mk('hiid-order-prefix','D02',[('DMI/src/HIID.cc','  return oiter != right.end();','  return oiter != right.end() || iter != end();')],
 'two identifiers where one is a proper prefix of the other, compared in both directions','operator< holds both ways for an id and its own prefix, so ordered maps keyed by ids lose entries',
 H+'''int main(){ HIID a("A.B"),b("A.B.C"); NEED(a<b); NEED(!(b<a)); return 0; }''')
mk('hiid-subset-tail','D02',[('DMI/src/HIID.cc','  return iter == end() && ( oiter == other.end() || (*oiter).isWildcard() );','  return ( iter == end() || (*iter).isWildcard() ) &&\n         ( oiter == other.end() || (*oiter).isWildcard() );')],
 'a pattern ending in "*" directly after the last element of the other identifier','A.* is reported to be a subset of plain A although it also matches A.B, A.B.C...',
 H+'''int main(){ HIID a("A.*"),b("A"); NEED(!a.subsetOf(b)); NEED(b.subsetOf(a)); NEED(b.subsetOf(b)); return 0; }''')
mk('hiid-literal-pad','D01',[('DMI/src/HIID.cc','  uint size = (len+LITERAL_RATIO-1)/LITERAL_RATIO; // used','  uint size = (len+LITERAL_RATIO-2)/LITERAL_RATIO; // used')],
 'a quoted literal whose length is 1 more than a multiple of 4','the last character of such a literal is written past the element storage and lost',
 H+'''int main(){ HIID a("$abcde"); NEED(a.size()==3); NEED(a.toString()=="$abcde"); HIID b("$abcd"); NEED(b.size()==2); return 0; }''')
mk('hiid-slash-short','D03',[('DMI/src/HIID.cc','    if( pos )\n    {\n      subid.resize(pos);','    if( pos > 1 )\n    {\n      subid.resize(pos);')],
 'a slash in second position','splitAtSlash drops a one-element head',
 H+'''int main(){ HIID a("A/B"); HIID h=a.splitAtSlash(); NEED(h==HIID("A")); NEED(a==HIID("B")); HIID c("A.B/C"); h=c.splitAtSlash(); NEED(h==HIID("A.B")); return 0; }''')
mk('blockset-move-count','D11',[('DMI/src/BlockSet.cc','  return cursize -= count;','  return cursize = refs.size() ? cursize - count : cursize;')],
 'popMove() that empties the source queue','the emptied queue still claims to hold blocks',
 H+'''int main(){ BlockSet a,b; a.push(BlockRef(new SmartBlock(4))); a.push(BlockRef(new SmartBlock(4))); a.popMove(b,1); NEED(a.size()==1&&b.size()==1); a.popMove(b,1); NEED(a.size()==0); NEED(b.size()==2); return 0; }''')

CELL='''struct Cell : public CountedRefTarget { static int live; int v; Cell(int x=0):v(x){__atomic_add_fetch(&live,1,5);} Cell(const Cell&o):CountedRefTarget(o),v(o.v){__atomic_add_fetch(&live,1,5);} ~Cell(){__atomic_sub_fetch(&live,1,5);} CountedRefTarget*clone(int=0,int=0)const{return new Cell(*this);} };
int Cell::live=0; typedef CountedRef<Cell> Ref;
'''
mk('cref-clone-shared','D04',[('DMI/src/CountedRefBase.cc','  shared_   = flags&DMI::SHARED;','  shared_   = shared_ || flags&DMI::SHARED;')],
 'a shared reference that is given its own private copy, then copied again, then written through','the private copy is still treated as shared: a write through one of its references is visible through the other',
 H+CELL+'''int main(){ Ref a(new Cell(1)); a.change(DMI::SHARED); Ref b(a); b.privatize(DMI::DEEP); Ref c(b); c.dewr().v=7; NEED(b->v==1); NEED(c->v==7); NEED(a->v==1); return 0; }''')
mk('cref-detach-race','D04',[('DMI/src/CountedRefBase.cc','''  Thread::Mutex::Lock target_lock(target_->crefMutex());
  Assert1(!target_->deleted_);
  VERIFY;
#ifdef COUNTEDREF_LINKED_LIST
  if( !prev_ && !next_ ) ''','''#ifdef COUNTEDREF_LINKED_LIST
  Thread::Mutex::Lock target_lock(target_->crefMutex());
#else
  const bool last = !(--target_->ref_count_);
  Thread::Mutex::Lock target_lock(target_->crefMutex());
#endif
  Assert1(!target_->deleted_);
  VERIFY;
#ifdef COUNTEDREF_LINKED_LIST
  if( !prev_ && !next_ ) '''),('DMI/src/CountedRefBase.cc','  if( !(--target_->ref_count_) && isAnonTarget() )','  if( last && isAnonTarget() )')],
 'two threads dropping their references to a common object at the same time','the reference count is decremented outside the lock: lost updates leak the object or destroy it twice',
 H+CELL+'''#include <vector>
static const int N=200; static vector<Ref> r[2]; static pthread_barrier_t bar;
static void *run(void *p){ long i=(long)p; for(int k=0;k<2000;k++){ pthread_barrier_wait(&bar); for(int j=0;j<N;j++) r[i][j].detach(); pthread_barrier_wait(&bar); pthread_barrier_wait(&bar);} return 0; }
int main(){ r[0].resize(N); r[1].resize(N); pthread_barrier_init(&bar,0,3); pthread_t t[2]; for(long i=0;i<2;i++) pthread_create(t+i,0,run,(void*)i);
 int bad=0; for(int k=0;k<2000;k++){ for(int j=0;j<N;j++){ r[0][j].attach(new Cell(j)); r[1][j].copy(r[0][j]); } pthread_barrier_wait(&bar); pthread_barrier_wait(&bar); if(Cell::live) bad++; Cell::live=0; pthread_barrier_wait(&bar);} 
 NEED(!bad); return 0; }''')
mk('ts-normalize-edge','D12',[('DMI/src/Timestamp.cc','  while( usec_ < 0 ) \n','  while( usec_ <= -1 && sec_ ) \n')],
 'an instant in the first second before zero (whole seconds zero, negative microseconds)','differences smaller than a second in the negative direction stay un-normalised and compare wrongly',
 H+'''int main(){ Timestamp a(5,100),b(5,200),c(3,500000),d(5,0); Timestamp x=a-b; NEED(x.sec()==-1&&x.usec()==999900); Timestamp z(0,0); NEED(x<z); Timestamp y=d-c; NEED(y.sec()==1&&y.usec()==500000); return 0; }''')
