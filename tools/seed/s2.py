from mk import mk
NEED='#define NEED(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); return 1; } } while (0)\n'
L='meq dmi timbase'; I='MEQ DMI TimBase'
M='''#include <MEQ/Forest.h>
#include <MEQ/Function.h>
#include <MEQ/Node.h>
#include <MEQ/Result.h>
#include <MEQ/VellSet.h>
#include <MEQ/Vells.h>
#include <MEQ/Request.h>
#include <MEQ/RequestId.h>
#include <MEQ/Cells.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/Vec.h>
#include <cstdio>
#include <cstring>
using namespace DMI; using namespace Meq; using std::string;
'''+NEED
mk('vellset-late-flags','M07',[('MEQ/src/VellSet.cc','''  if( hasDataFlags() )
    ref().setDataFlags(dataFlags());
  ps.pertval_vec->dewr().put(i,ref,flags);''','''  if( hasDataFlags() && !iset )
    ref().setDataFlags(dataFlags());
  ps.pertval_vec->dewr().put(i,ref,flags);''')],
 'two sets of perturbations (a second-order request), data flags assigned before the perturbed values','perturbed values of the second set lose the flags of their VellSet',
 M+'''int main(){ VellSet vs(0,2); std::vector<int> s(1,7); vs.setSpids(s); vs.setValue(new Vells(1.,false)); Vells *f=new Vells(LoShape(1),int(0),true); *(int*)f->getDataPtr()=5; Vells::Ref fr(f); vs.setDataFlags(fr);
 for(int j=0;j<2;j++) vs.setPerturbedValue(0,new Vells(2.+j,false),j); NEED(vs.getPerturbedValue(0,0).hasDataFlags()); NEED(vs.getPerturbedValue(0,1).hasDataFlags()); return 0; }''',libs=L,incs=I)
mk('result-stale-grid','M08',[('MEQ/src/Result.cc','''  else
  {
    Record::removeField(FCells,true,0);
    pcells_ = 0;
  }
}''','''  else
    Record::removeField(FCells,true,0);
}''')],
 'a result that has a grid, whose values then become constant and whose grid is set again','the result still claims to have the grid it dropped (a pointer to freed cells)',
 M+'''int main(){ Result::Ref r; r<<=new Result(1); VellSet &vs=r().setNewVellSet(0,0,0); vs.setValue(new Vells(1.,LoShape(2),true)); Cells::Ref c; c<<=new Cells; c().setCells(0,0.,2.,2); c().recomputeDomain(); Cells::Ref keep(c);
 r().setCells(*c); NEED(r->hasCells()); VellSet &v2=r().setNewVellSet(0,0,0); v2.setValue(new Vells(3.,false)); r().setCells(*keep); NEED(!r->hasCells()); NEED(!r->hasField(FCells)); return 0; }''',libs=L,incs=I)
FN='''struct Lin : Function { Lin():Function(-1,0,0){} using Function::flagmask_; Forest fo; void setup(int n){ DMI::Record *r=new DMI::Record; DMI::Record::Ref rr(r); int v[4]={1,2,3,4}; (*r)[FChildren]<<=new DMI::Vec(Tpint,n,v); attachInitRecord(rr,&fo); children().init(n,"lin"); flagmask_.resize(n); for(int i=0;i<n;i++) flagmask_[i]=-1; }
 int run(Result::Ref &r,const std::vector<Result::Ref> &c,const Request &q){ return getResult(r,c,q,true); }
 virtual Vells evaluate(const Request&,const LoShape&,const std::vector<const Vells*> &v){ Vells s(0.,false); for(unsigned i=0;i<v.size();i++) if(v[i]) s+=*v[i]; return s; } };
static void val(Result::Ref &r,double x,int fl){ r<<=new Result(1); VellSet &vs=r().setNewVellSet(0,0,0); vs.setValue(new Vells(x,false)); if(fl){ Vells *f=new Vells(LoShape(1),int(0),true); *(int*)f->getDataPtr()=fl; Vells::Ref fr(f); vs.setDataFlags(fr);} }
static int flg(const Result::Ref &r){ const VellSet &vs=r->vellSet(0); return vs.hasDataFlags()?*(const int*)vs.dataFlags().getConstDataPtr():0; }
'''
mk('function-flag-mask','M09',[('MEQ/src/Function.cc','Vells::mergeFlags(out,pvs[i]->dataFlags(),flagmask_[i]);','Vells::mergeFlags(out,pvs[i]->dataFlags(),flagmask_.front());')],
 'a function whose children have different flag masks','the mask of the first child is applied to the flags of every child',
 M+FN+'''int main(){ Lin f; f.setup(2); f.flagmask_[0]=3; f.flagmask_[1]=12; std::vector<Result::Ref> c(2); val(c[0],2,0); val(c[1],3,5); Request q; Result::Ref r; f.run(r,c,q); NEED(flg(r)==4); val(c[0],2,7); f.run(r,c,q); NEED(flg(r)==7); return 0; }''',libs=L,incs=I)
mk('flags-full-mask-shared','M09',[('MEQ/src/Vells.cc','''    if( fm != VellsFullFlagMask )
      flags0() &= fm;''','''    if( fm != VellsFullFlagMask && flags0->nelements() > 1 )
      flags0() &= fm;''')],
 'one flag value for the whole grid, a mask other than the full one, and no flags before it','a scalar flag is merged without its mask, so masked-out flag bits appear in the result',
 M+FN+'''int main(){ Lin f; f.setup(2); f.flagmask_[0]=3; f.flagmask_[1]=12; std::vector<Result::Ref> c(2); val(c[0],2,7); val(c[1],3,0); Request q; Result::Ref r; f.run(r,c,q); NEED(flg(r)==3); NEED(flg(c[0])==7); return 0; }''',libs=L,incs=I)
ND='''struct LS { int mask,sv,evals; } leaf[4]; static double g(const HIID &id,int k){ return k<int(id.size())?-id[k].id():0; }
static double lv(int i,const HIID &id){ double v=i*10+leaf[i].sv*0.25; for(int k=1;k<6;k++) if(leaf[i].mask&(1<<k)) v+=g(id,k)*100*k*i; return v; }
struct Leaf : Node { Leaf():Node(0){} virtual TypeId objectType() const {return AidX;} virtual void setStateImpl(DMI::Record::Ref &rec,bool init){ Node::setStateImpl(rec,init); rec[AidY].get(leaf[nodeIndex()].sv,init); }
 virtual int getResult(Result::Ref &ref,const std::vector<Result::Ref>&,const Request &q,bool){ int i=nodeIndex(); leaf[i].evals++; bool d=q.evalMode()>0; Result &r=ref<<=new Result(1); VellSet &vs=r.setNewVellSet(0,d,d); vs.setValue(new Vells(lv(i,q.id()),false)); if(d){ std::vector<int> s(1,i); vs.setSpids(s); vs.setPerturbation(0,1.,0); vs.setPerturbedValue(0,new Vells(lv(i,q.id())+1000000,false),0);} return leaf[i].mask; } };
struct Sum : Function { Sum():Function(-1,0,0){} virtual TypeId objectType() const {return AidY;} virtual Vells evaluate(const Request&,const LoShape&,const std::vector<const Vells*> &v){ Vells s(0.,false); for(unsigned i=0;i<v.size();i++) if(v[i]) s+=*v[i]*Vells(double(1<<i),false); return s; } };
static DMI::BObj *mkL(int){return new Leaf;} static DMI::BObj *mkS(int){return new Sum;}
static NodeFace &node(Forest &f,int want,const char *cls,const char *name,int c1,int c2,int p1,int p2){ DMI::Record *r=new DMI::Record; DMI::Record::Ref rr(r); (*r)[FClass]=string(cls); (*r)[FName]=string(name); (*r)[FNodeIndex]=want; int c[2]={c1,c2},p[2]={p1,p2}; if(c1) (*r)[FChildren]<<=new DMI::Vec(Tpint,c2?2:1,c); if(p1) (*r)[FParents]<<=new DMI::Vec(Tpint,p2?2:1,p); (*r)[FCachePolicy]=20; int got; return f.create(got,rr); }
static HIID id(int type,int a,int b,int c,int d,int e){ HIID h; h.resize(6); h[0]=type?RequestType::EVAL_SINGLE:RequestType::EVAL; int x[5]={a,b,c,d,e}; for(int k=0;k<5;k++) h[k+1]=AtomicID(-x[k]); return h; }
static Result::Ref run(Forest &f,int n,const HIID &h){ Request::Ref rq; Cells *pc=new Cells; pc->setCells(0,0.,2.,2); pc->recomputeDomain(); rq<<=new Request(pc,h); Result::Ref r; f.get(n).execute(r,*rq,0); return r; }
static double v0(const Result::Ref &r){ return *(const double*)r->vellSet(0).getValue().getConstDataPtr(); }
static void setup(){ DynamicTypeManager::addToRegistry(AidX.id(),mkL); DynamicTypeManager::addToRegistry(AidY.id(),mkS); for(int i=0;i<4;i++) leaf[i]=LS(); }
static void state(Forest &f,int i){ DMI::Record *s=new DMI::Record; DMI::Record::Ref sr(s); (*s)[AidY]=leaf[i].sv+1; dynamic_cast<Node&>(f.get(i)).setState(sr); }
'''
mk('cache-state-first-parent','M10',[('MEQ/src/Node.cc','''  // notify parents
  for( int i=0; i<numParents(); i++ )
    getParent(i).propagateStateDependency();''','''  // notify parents
  for( int i=0; i<numParents() && !getParent(i).has_state_dep_; i++ )
    getParent(i).propagateStateDependency();''')] if False else [('MEQ/src/Node.cc','''  if( has_state_dep_ )
    return;
  has_state_dep_ = true;
  // notify parents
  for( int i=0; i<numParents(); i++ )
    getParent(i).propagateStateDependency();''','''  if( has_state_dep_ )
    return;
  has_state_dep_ = true;
  // notify parents
  for( int i=numParents()-1; i>0; i-- )
    getParent(i).propagateStateDependency();
  if( numParents() == 1 )
    getParent(0).propagateStateDependency();''')],
 'a node with two parents whose state changes while both parents hold cached results','the first of several parents is not told about the change of state and answers from its stale cache',
 M+ND+'''int main(){ setup(); Forest f; node(f,1,"X","A",0,0,2,3); node(f,2,"Y","P",1,0,0,0); node(f,3,"Y","Q",1,0,0,0); f.initAll(); NEED(v0(run(f,2,id(0,1,1,1,1,1)))==10); NEED(v0(run(f,3,id(0,1,1,1,1,1)))==10);
 state(f,1); NEED(v0(run(f,3,id(0,1,2,1,1,1)))==10.25); NEED(v0(run(f,2,id(0,1,2,1,1,1)))==10.25); return 0; }''',libs=L,incs=I)
mk('cache-strip-other-deps','M10',[('MEQ/src/Node.cc','else if( diffmask == RequestType::DEPMASK_TYPE &&','else if( (diffmask&RequestType::DEPMASK_TYPE) &&')],
 'a cached result with derivatives, then a request without derivatives that also differs in something the node depends on (e.g. the domain)','the stale value of the other domain is returned, only stripped of its derivatives',
 M+ND+'''int main(){ setup(); Forest f; leaf[1].mask=1<<4; node(f,1,"X","A",0,0,2,0); node(f,2,"Y","P",1,0,0,0); f.initAll(); NEED(v0(run(f,2,id(1,1,1,1,1,1)))==410); NEED(v0(run(f,2,id(0,1,1,1,1,1)))==410); NEED(v0(run(f,2,id(1,1,1,1,2,1)))==810); NEED(v0(run(f,2,id(0,1,1,1,3,1)))==1210); return 0; }''',libs=L,incs=I)
mk('cache-state-dep-forgotten','M10',[('MEQ/src/Node.cc','''  if( has_state_dep_ )
    cache_.rescode |= symdeps().getMask(FState);
''','''  if( has_state_dep_ && !(cache_.rescode&RES_IGNORE_TYPE) )
    cache_.rescode |= symdeps().getMask(FState);
''')],
 'a constant node (a result that depends on nothing, not even the type of request) whose state is changed','its cached value survives the change of state',
 M+ND.replace('return leaf[i].mask; }','return leaf[i].mask|RES_IGNORE_TYPE; }')+'''int main(){ setup(); Forest f; node(f,1,"X","A",0,0,0,0); f.initAll(); NEED(v0(run(f,1,id(0,1,1,1,1,1)))==10); state(f,1); NEED(v0(run(f,1,id(0,1,2,1,1,1)))==10.25); return 0; }''',libs=L,incs=I)
KD='''static int st[6],calls; struct Kid : Node { Kid():Node(0){} virtual TypeId objectType() const {return AidX;} virtual int getResult(Result::Ref &ref,const std::vector<Result::Ref>&,const Request&,bool){ int i=nodeIndex(); calls|=1<<i; Result &r=ref<<=new Result(1); VellSet &vs=r.setNewVellSet(0,0,0); if(st[i]==2){ DMI::Record *f=new DMI::Record; ObjRef fr(f); (*f)[AidMessage]=string("kid"); vs.addFail(fr);} else if(!st[i]) vs.setValue(new Vells(double(i),false)); return st[i]==2?RES_FAIL:st[i]==1?RES_MISSING:0; } };
struct Top : Node { Top():Node(-1,0,0){} virtual TypeId objectType() const {return AidY;} virtual int getResult(Result::Ref &ref,const std::vector<Result::Ref>&,const Request&,bool){ Result &r=ref<<=new Result(1); r.setNewVellSet(0,0,0).setValue(new Vells(42.,false)); return 0; } };
static DMI::BObj *mkK(int){return new Kid;} static DMI::BObj *mkT(int){return new Top;}
static int poll(AtomicID fp,AtomicID mp,int a,int b,int c){ DynamicTypeManager::addToRegistry(AidX.id(),mkK); DynamicTypeManager::addToRegistry(AidY.id(),mkT); Forest f; int got; static const char *N[4]={"","a","b","c"}; for(int i=1;i<4;i++){ DMI::Record *r=new DMI::Record; DMI::Record::Ref rr(r); (*r)[FClass]=string("X"); (*r)[FName]=string(N[i]); (*r)[FNodeIndex]=i; int p=5; (*r)[FParents]<<=new DMI::Vec(Tpint,1,&p); f.create(got,rr);} int ch[3]={1,2,3}; { DMI::Record *r=new DMI::Record; DMI::Record::Ref rr(r); (*r)[FClass]=string("Y"); (*r)[FName]=string("top"); (*r)[FNodeIndex]=5; (*r)[FChildren]<<=new DMI::Vec(Tpint,3,ch); f.create(got,rr);} f.initAll();
 DMI::Record *s=new DMI::Record; DMI::Record::Ref sr(s); (*s)[FFailPolicy]=HIID(fp); (*s)[FMissingDataPolicy]=HIID(mp); dynamic_cast<Node&>(f.get(5)).setState(sr); st[1]=a; st[2]=b; st[3]=c; calls=0; Request::Ref rq; Cells *pc=new Cells; pc->setCells(0,0.,2.,2); pc->recomputeDomain(); rq<<=new Request(pc,HIID("EV.1.1.1.1.1")); Result::Ref r; return f.get(5).execute(r,*rq,0)&(NodeFace::RES_FAIL|NodeFace::RES_MISSING); }
'''
mk('poll-missing-policy','M13',[('MEQ/src/NodeNursery.cc','''          else if( childcode&NodeFace::RES_MISSING )
          {''','''          else if( (childcode&NodeFace::RES_MISSING) && failPolicy() != AidIgnore )
          {''')],
 'failures ignored but missing data told to abandon the poll','with failures ignored, missing data no longer stops the poll',
 M+KD+'''int main(){ poll(AidIgnore,AidAbandonPropagate,1,0,0); NEED(calls==2); poll(AidCollectPropagate,AidAbandonPropagate,1,0,0); NEED(calls==2); poll(AidIgnore,AidCollectPropagate,1,0,0); NEED(calls==14); return 0; }''',libs=L,incs=I)
mk('request-next-id-lost','M15',[('MEQ/src/Request.cc','    next_id_ = (*this)[FNextRequestId].as<HIID>(HIID());\n','')],
 'a request with a next-request hint that is copied or received','the copy forgets the hint: every cache is treated as invalid for the next request, or an old hint stays',
 M+'''int main(){ Request q; q.setId(HIID("EV.1.2.3")); q.setNextId(HIID("EV.1.2.4")); Request c(q,DMI::DEEP,0); NEED(c.id()==HIID("EV.1.2.3")); NEED(c.nextId()==HIID("EV.1.2.4")); return 0; }''',libs=L,incs=I)
OC='octopussy dmi timbase'; OI='OCTOPUSSY DMI TimBase'
mk('subs-widen-scope','O02',[('OCTOPUSSY/src/Subscriptions.cc','if( iter->mask.subsetOf(id) && iter->scope.subsetOf(scope) )','if( iter->mask.subsetOf(id) && ( iter->scope.subsetOf(scope) || scope.subsetOf(iter->scope) ) )')],
 'a second subscription with a wider mask but a narrower scope than an existing one','messages from outside the narrower scope that were subscribed to before are no longer delivered',
 '''#include <OCTOPUSSY/Subscriptions.h>
#include <OCTOPUSSY/Message.h>
#include <cstdio>
using namespace Octopussy; using namespace DMI;
'''+NEED+'''int main(){ Subscriptions s; s.add(HIID("A.B"),MsgAddress(AidAny,AidAny,AidAny,AidAny)); s.add(HIID("A.*"),MsgAddress(AtomicID(3),AtomicID(4),AidAny,AidAny)); Message m(HIID("A.B")); m.setFrom(MsgAddress(AtomicID(7),AtomicID(8),AtomicID(1),AtomicID(1))); NEED(s.matches(m)); return 0; }''',libs=OC,incs=OI)
mk('record-merge-keep','D05',[('DMI/src/Record.cc','      FailWhen(!res.second && overwrite && fld.isProtected(),','      FailWhen(!res.second && overwrite && fld.isProtected() && !oiter->second.isProtected(),')],
 'merging with overwrite where both records have the field protected','a protected field is overwritten by a merge',
 '''#include <DMI/Record.h>
#include <DMI/Exception.h>
#include <cstdio>
using namespace DMI;
'''+NEED+'''int main(){ DMI::Record a,b; a[HIID("A")]=1; b[HIID("A")]=2; a.protectField(HIID("A"),true); b.protectField(HIID("A"),true); bool t=false; try { a.merge(b,true); } catch(std::exception &e){ t=true; } NEED(t); NEED(a[HIID("A")].as<int>()==1); return 0; }''')
