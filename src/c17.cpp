// C17: expressions do not influence each other and do not use up memory
#include "pathmodel.hpp"
// stack that reports how many elements all stacks hold together
static long g_held=0;
template <typename T> class HeldStack
{
	typedef std::vector<T> V; V v;
	struct Track {V& v; size_t n; explicit Track( V& v_) :v(v_),n(v_.size()) {} ~Track() {g_held+=(long)v.size()-(long)n;}};
	void need( bool ok, const char* what) const {if (!ok) vf::fail( what);}
public:
	typedef T value_type; typedef typename V::size_type size_type; typedef typename V::difference_type difference_type; typedef T& reference; typedef const T& const_reference;
	typedef typename V::iterator iterator; typedef typename V::const_iterator const_iterator; typedef typename V::reverse_iterator reverse_iterator; typedef typename V::const_reverse_iterator const_reverse_iterator;
	HeldStack() {}
	explicit HeldStack( size_t n, const T& t=T()) :v(n,t) {g_held+=v.size();}
	template <class It> HeldStack( It b, It e) :v(b,e) {g_held+=v.size();}
	HeldStack( const HeldStack& o) :v(o.v) {g_held+=v.size();}
	~HeldStack() {g_held-=v.size();}
	HeldStack& operator=( const HeldStack& o) {Track t( v); v=o.v; return *this;}
	template <class... A> void assign( A... a) {Track t( v); v.assign( a...);}
	void swap( HeldStack& o) {v.swap( o.v);}
	void push_back( const T& x) {Track t( v); v.push_back( x);}
	template <class... A> void emplace_back( A&&... a) {Track t( v); v.emplace_back( std::forward<A>( a)...);}
	void pop_back() {need( !v.empty(), "pop_back of an empty stack"); Track t( v); v.pop_back();}
	void clear() {Track t( v); v.clear();}
	void resize( size_t n) {Track t( v); v.resize( n);}
	void resize( size_t n, const T& x) {Track t( v); v.resize( n, x);}
	void reserve( size_t n) {v.reserve( n);}
	template <class... A> iterator insert( iterator p, A... a) {Track t( v); return v.insert( p, a...);}
	iterator erase( iterator p) {need( p>=v.begin() && p<v.end(), "erase out of the stack"); Track t( v); return v.erase( p);}
	iterator erase( iterator b, iterator e) {need( b>=v.begin() && b<=e && e<=v.end(), "erase out of the stack"); Track t( v); return v.erase( b, e);}
	T& front() {need( !v.empty(), "front of an empty stack"); return v.front();}
	const T& front() const {need( !v.empty(), "front of an empty stack"); return v.front();}
	T& back() {need( !v.empty(), "back of an empty stack"); return v.back();}
	const T& back() const {need( !v.empty(), "back of an empty stack"); return v.back();}
	bool empty() const {return v.empty();}
	size_t size() const {return v.size();}
	size_t capacity() const {return v.capacity();}
	size_t max_size() const {return v.max_size();}
	T* data() {return v.data();}
	const T* data() const {return v.data();}
	T& operator[]( size_t i) {need( i<v.size(), "index out of the stack"); return v[i];}
	const T& operator[]( size_t i) const {need( i<v.size(), "index out of the stack"); return v[i];}
	T& at( size_t i) {return v.at( i);}
	const T& at( size_t i) const {return v.at( i);}
	iterator begin() {return v.begin();}
	iterator end() {return v.end();}
	const_iterator begin() const {return v.begin();}
	const_iterator end() const {return v.end();}
	const_iterator cbegin() const {return v.begin();}
	const_iterator cend() const {return v.end();}
	reverse_iterator rbegin() {return v.rbegin();}
	reverse_iterator rend() {return v.rend();}
	const_reverse_iterator rbegin() const {return v.rbegin();}
	const_reverse_iterator rend() const {return v.rend();}
};
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace vf {
const Check check={"C17",25000,1500000,"distinct (document, set of expressions, character set) triples with at least one element selected",0,60};
using pm::Expr; using pm::XB; using namespace textwolf;
void init() {}
struct Run
{
	Rng& r; const pm::Doc& d; const std::vector<Expr>& xs; size_t roots; uint64_t hits;
	template <class CS> void pass( const std::vector<size_t>& order, std::vector<std::vector<int> >& got)
	{
		typedef pm::Lib<CS> L; typename L::Atm atm; for (size_t i:order) L::define( r, atm, xs[i]);
		got.assign( d.ev.size(), std::vector<int>());
		g_held=0; XMLPathSelect<CS,HeldStack> sel( &atm); XMLPathSelect<CS>* plain=r.chance(1,8)?new XMLPathSelect<CS>( &atm):0; std::vector<int> tmp;
		std::vector<long> before; long peak=0;
		for (size_t i=0;i<d.ev.size();++i)
		{
			int t=d.ev[i].type; if (t==XB::OpenTag||t==XB::HeaderStart) before.push_back( g_held);
			L::push( r, sel, t, L::bytes( d.ev[i].key), got[i]); if (g_held>peak) peak=g_held;
			if (plain) {tmp.clear(); L::push( r, *plain, t, L::bytes( d.ev[i].key), tmp); if (tmp!=got[i]) fail( "the type of the stacks changes the elements selected");}
			if (t==XB::CloseTag||t==XB::CloseTagIm||t==XB::HeaderEnd)
			{
				if (g_held!=before.back()) fail( "the selector holds "+num(g_held)+" elements after and "+num(before.back())+" before element "+num(i)+" at the same depth");
				before.pop_back(); count( "closed elements measured");
			}
		}
		delete plain; maxv( "elements held", peak);
	}
	// the memory in use when the root elements are closed, again and again
	template <class CS> void memory()
	{
		typedef pm::Lib<CS> L; std::vector<std::string> keys; for (auto& e:d.ev) keys.push_back( L::bytes( e.key));
		typename L::Atm atm; for (auto& x:xs) L::define( r, atm, x);
		std::vector<size_t> heap; heap.reserve( d.ev.size()); std::vector<int> out; out.reserve( 1000); int depth=0;
		XMLPathSelect<CS> sel( &atm); size_t base=__sanitizer_get_current_allocated_bytes();
		for (size_t i=0;i<d.ev.size();++i)
		{
			int t=d.ev[i].type; out.clear(); size_t cap=out.capacity(); L::push( r, sel, t, keys[i], out); if (out.capacity()!=cap) base+=(out.capacity()-cap)*sizeof(int);
			if (t==XB::OpenTag) ++depth; else if (t==XB::CloseTag||t==XB::CloseTagIm) {if (!--depth) heap.push_back( __sanitizer_get_current_allocated_bytes()-base);}
		}
		size_t k=std::max( 2*roots, heap.size()/4); if (k+8>=heap.size()) return;
		if (heap.back()>heap[k]+64) fail( "the selector uses "+num(heap[k])+" bytes after "+num(k+1)+" and "+num(heap.back())+" bytes after "+num(heap.size())+" equal root elements");
		count( "memory measurements of a selector"); maxv( "bytes used by a selector", heap.back());
	}
	template <class CS> void go()
	{
		if (roots) memory<CS>();
		std::vector<size_t> all; for (size_t i=0;i<xs.size();++i) all.push_back( i);
		std::vector<std::vector<int> > joint, perm, alone;
		pass<CS>( all, joint);
		for (size_t i=all.size();i>1;--i) std::swap( all[i-1], all[ r.below( i)]);
		pass<CS>( all, perm);
		for (size_t k=0;k<joint.size();++k) {hits+=joint[k].size(); if (joint[k]!=perm[k]) fail( "element "+num(k)+" '"+show( enc::u8( d.ev[k].key))+"' selected as"+pm::show( joint[k])+" or as"+pm::show( perm[k])+" if the expressions are defined in another order");}
		for (size_t i=0;i<xs.size();++i)
		{
			if (xs.size()>24 && !r.chance(24,xs.size())) continue;
			pass<CS>( std::vector<size_t>( 1, i), alone); count( "expressions compared alone and together");
			for (size_t k=0;k<joint.size();++k)
			{
				size_t n=std::count( joint[k].begin(), joint[k].end(), xs[i].type);
				if (n!=alone[k].size()) fail( "element "+num(k)+" '"+show( enc::u8( d.ev[k].key))+"' selected "+num(n)+" times by "+pm::show( xs[i])+" together with the others, "+num(alone[k].size())+" times alone");
			}
		}
		count( "selections", hits);
	}
};
void run( uint64_t idx, Rng& r)
{
	unsigned names=r.chance(1,2)?2+r.below(2):r.chance(1,2)?5:r.chance(1,2)?10:(unsigned)pm::vocab().names.size();
	bool large=r.chance(1,100); pm::DocGen g( r, names, r.chance(1,12)?30:1+r.below(5), 10+r.below( 80)); g.generate();
	bool rep=large || r.chance(1,8); size_t roots=0; if (rep)	// the root elements again and again
	{
		unsigned n=large?200+r.below( 600):3+r.below( 20); pm::Doc one=g.d; size_t from=0; while (from<one.ev.size() && one.ev[from].type!=XB::OpenTag) ++from;
		{int dp=0; for (auto& e:one.ev) {if (e.type==XB::OpenTag) ++dp; else if (e.type==XB::CloseTag||e.type==XB::CloseTagIm) if (!--dp) ++roots;}}
		for (unsigned k=0;k<n && g.d.ev.size()<20000;++k) for (size_t i=from;i<one.ev.size();++i) g.d.ev.push_back( one.ev[i]);
		count( "documents with repeated roots"); maxv( "repetitions", n);
	}
	if (!rep && r.chance(1,6))	// the same below a root element
	{
		std::vector<pm::Event> ev; bool in=false; unsigned n=r.chance(1,5)?100:1+r.below( 5); std::vector<pm::Event> body;
		for (auto& e:g.d.ev) {if (e.type==XB::OpenTag) in=true; if (in) body.push_back( e); else ev.push_back( e);}
		pm::Event o={XB::OpenTag,U"a",0,0}, c={XB::CloseTag,U"a",0,0}; ev.push_back( o); for (unsigned k=0;k<n && ev.size()<20000;++k) ev.insert( ev.end(), body.begin(), body.end()); ev.push_back( c); g.d.ev=ev;
	}
	pm::rescope( g.d); pm::ExprOpt o; o.maxidx=0x7FFFFFFF; o.maxsteps=1+r.below(5); unsigned n=large?2+r.below(3):r.chance(1,12)?30+r.below(100):2+r.below( r.chance(1,3)?14:5); std::vector<Expr> xs;
	for (unsigned i=0;i<n;++i)
	{
		Expr x=r.chance(3,5)?pm::genFrom( r, g.d, 1+i, o):pm::genExpr( r, names, 1+i, o);
		if (!xs.empty() && r.chance(1,4)) {Expr y=xs[ r.below( xs.size())]; y.type=1+i; if (y.steps.size() && r.chance(1,2)) {size_t k=r.below( y.steps.size()); pm::Step& s=y.steps[k]; switch (r.below(4)) {case 0: s.follow=!s.follow; break; case 1: s.any=!s.any||s.op==pm::Step::Close; break; case 2: if (s.op==pm::Step::Cond) s.anyval=!s.anyval; break; default: if (s.op==pm::Step::Cond) s.value=r.pick( pm::vocab().values);}} else if (y.out==Expr::Content) y.outFollow=!y.outFollow; x=y;}
		if (x.steps.empty() && x.out==Expr::Trigger) x.out=Expr::Content;
		xs.push_back( x);
	}
	std::string head; for (auto& x:xs) head+=pm::show( x)+"\n"; int id=r.chance(3,4)?(int)enc::UTF8:(int)r.below( enc::NofEnc);
	head=std::string("character set ")+enc::name(id)+"\n"+head+pm::show( g.d).substr( 0, 20000); note( head.substr( 0, 6000)); if (idx<40&&idx%9==0&&head.size()<1200) sample( head);
	// the number of matches can grow exponentially with the depth
	for (auto& x:xs) {unsigned f=0; for (auto& s:x.steps) f+=s.follow; if (f>2 && g.d.depth>12) {count( "cases with too many selections skipped"); return;}}
	if (g.d.ev.size()<2500) {uint64_t t=0; for (auto& x:xs) {std::vector<uint64_t> h=pm::evaluate( g.d, x); for (auto v:h) t+=v; if (t>300000) {count( "cases with too many selections skipped"); return;}}}
	if (r.chance(1,8)) {int tb=pm::typeBase( r); for (auto& x:xs) x.type+=tb;}
	Run run={r,g.d,xs,roots,0}; cs::visit( id, run);
	maxv( "elements", g.d.ev.size()); maxv( "expressions in an automaton", n); if (run.hits) distinct( hash( head));
}
}
