// Path expressions: generator, definition by the automaton interface, text form, and a reference evaluator
#pragma once
#include "cs.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#include "textwolf/xmlpathselect.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include <memory>
#include <algorithm>
#include <new>
namespace pm {
using namespace textwolf;
using vf::Rng;
typedef std::u32string U;
typedef XMLScannerBase XB;

// ---- documents as sequences of elements
struct Event { int type; U key; int scope, newscope; };	// scope: open element (0: document), newscope: the scope where steps matched by this event continue
struct Doc
{
	std::vector<Event> ev; std::vector<int> parent; int header; unsigned depth;
	Doc() :header(-1),depth(0) {parent.push_back(-1);}
};
struct Vocab { std::vector<U> names, atts, values, texts; };
inline const Vocab& vocab()
{
	static Vocab v;
	if (v.names.empty())
	{
		v.names={U"a",U"b",U"c",U"aa",U"ab",U"a-b",U"x:y",U"\u00e9t\u00e9",U"\u20acuro",U"\U0001D11Ek",U( 257, U'a'),U"z\U0010FFFD",U"\u0451\uFFFDx",U"a\u012Ab\u0140\u0128",U"\u013D\u017E\u0100c"};
		v.atts={U"a",U"i",U"k",U"id",U"x:z",U"\u00fcb",U"\U0010FFFDz",U"i"+U( 256, U'd'),U"\u015B\u012F\u0140"};
		v.values={U"1",U"2",U"10",U"",U"x y",U"a&b",U"<",U"it's",U"say \"so\"",U"a\nb",U"\u20ac5",U"]",U"a",U"x\U0010FFFDy",U( 257, U'1'),U"\u0085\uFFFD",U"\U000FFFFF\U00100000",U"x\u0122\u0127y",U"\u0122",U"\u0127\u0100\u0400"};
		v.texts={U"text",U"1",U"a",U"some more text, with & and <",U"\u00e9\u20ac\U0001D11E",U"b"};
	}
	return v;
}
struct DocGen
{
	Rng& r; Doc d; unsigned names, maxdepth; size_t maxev;
	std::vector<unsigned short> none;
	DocGen( Rng& r_, unsigned names_, unsigned maxdepth_, size_t maxev_) :r(r_),names(names_),maxdepth(maxdepth_),maxev(maxev_) {}
	U name() {return vocab().names[ r.below( names)];}
	void ev( int t, const U& k, int s, int n) {Event e; e.type=t; e.key=k; e.scope=s; e.newscope=n; d.ev.push_back( e);}
	void attribs( int scope, int nt, int vt)
	{
		unsigned n=r.below(4); for (unsigned i=0;i<n;++i) {ev( nt, vocab().atts[ r.below( std::min<size_t>( names, vocab().atts.size()))], scope, scope); ev( vt, vocab().values[ r.chance(2,3)?r.below(3):r.below( vocab().values.size())], scope, scope);}
	}
	void element( int scope, unsigned depth)
	{
		int id=(int)d.parent.size(); d.parent.push_back( scope); d.depth=std::max( d.depth, depth);
		U n=name(); ev( XB::OpenTag, n, scope, id); attribs( id, XB::TagAttribName, XB::TagAttribValue);
		if (r.chance(1,5)) {ev( XB::CloseTagIm, U"", id, id); return;}
		unsigned k=r.below( depth<3?6:4); bool last=false;
		for (unsigned i=0;i<k && d.ev.size()<maxev;++i)
		{
			if (!last && r.chance(1,2)) {ev( XB::Content, r.pick( vocab().texts), id, id); last=true;}
			else if (depth<maxdepth) {element( id, depth+1); last=false;}
		}
		ev( XB::CloseTag, n, id, id);
	}
	void generate()
	{
		if (r.chance(1,2))
		{
			int id=(int)d.parent.size(); d.parent.push_back( 0); d.header=id;
			ev( XB::HeaderStart, U"?xml", 0, id); attribs( id, XB::HeaderAttribName, XB::HeaderAttribValue); ev( XB::HeaderEnd, U"", id, id);
		}
		if (r.chance(1,5)) {ev( XB::DocAttribValue, U"DOCTYPE", 0, 0); ev( XB::DocAttribValue, name(), 0, 0); ev( XB::DocAttribEnd, U"", 0, 0);}
		unsigned roots=r.chance(1,3)?1+r.below(4):1;	// (fragments with several roots are accepted by the scanner)
		for (unsigned i=0;i<roots;++i) {element( 0, 1); if (roots>1 && r.chance(1,4)) ev( XB::Content, r.pick( vocab().texts), 0, 0);}
		if (roots>1 && r.chance(1,6)) {}
	}
};
// computes the scopes from the sequence of elements
inline void rescope( Doc& d)
{
	d.parent.assign( 1, -1); d.header=-1; d.depth=0; std::vector<int> st( 1, 0);
	for (auto& e:d.ev)
	{
		e.scope=e.newscope=st.back();
		if (e.type==XB::OpenTag||e.type==XB::HeaderStart)
		{
			int id=(int)d.parent.size(); d.parent.push_back( st.back()); st.push_back( id); e.newscope=id; if (e.type==XB::HeaderStart) d.header=id; else d.depth=std::max<unsigned>( d.depth, st.size()-1);
		}
		else if (e.type==XB::CloseTag||e.type==XB::CloseTagIm||e.type==XB::HeaderEnd) st.pop_back();
	}
}
inline std::string show( const Doc& d)
{
	std::string s; for (auto& e:d.ev) {s+=XB::getElementTypeName( (XB::ElementType)e.type); s+="'"+vf::show( enc::u8( e.key))+"' ";} return s;
}

// ---- expressions
struct Step { enum Op {Tag,Attr,Cond,Close}; int op; bool follow, any, anyval; U name, value; };
struct Expr
{
	enum Out {Trigger,Content,AttrVal};
	std::vector<Step> steps; int out; bool outFollow; int rangeKind, r1, r2; int type;	// rangeKind: 0 none, 1 INDEX, 2 RANGE, 3 FROM, 4 TO, 5 FROM and TO
	std::vector<std::vector<U> > alt;	// alternatives of the names of steps ({a,b} in the text form)
	Expr() :out(Trigger),outFollow(false),rangeKind(0),r1(0),r2(-1),type(0) {}
	bool inRange( int i) const
	{
		switch (rangeKind) {case 1: return i==r1; case 2: case 5: return i>=r1 && i<=r2; case 3: return i>=r1; case 4: return i<=r2; default: return true;}
	}
};
struct ExprOpt { bool ranges, closes, names_simple; unsigned maxsteps; int maxidx; ExprOpt() :ranges(true),closes(true),names_simple(false),maxsteps(4),maxidx(0) {} };
// indices near the limits of narrower types and of the one used
inline void bigIndex( Rng& r, Expr& x, const ExprOpt& o)
{
	if (!x.rangeKind || !o.maxidx || !r.chance(1,10)) return;
	static const int b[]={126,254,32766,65534,0x7FFFFE,0xFFFFFE}; int base[2]={r.chance(1,2)?b[ r.below(6)]+(int)r.below(4):o.maxidx-(int)r.below(3),r.chance(1,2)?b[ r.below(6)]+(int)r.below(4):o.maxidx-(int)r.below(3)};
	if (r.chance(1,4)) x.r1=base[0]; if (x.rangeKind!=1 || r.chance(1,4)) x.r2=base[1]; vf::count( "expressions with large indices");
}
inline Expr genExpr( Rng& r, unsigned names, int type, const ExprOpt& o)
{
	Expr x; x.type=type; unsigned n=r.below( o.maxsteps+1); bool end=false;
	auto nm=[&]() {return vocab().names[ r.below( names)];};
	auto at=[&]() {return vocab().atts[ r.below( std::min<size_t>( names, vocab().atts.size()))];};
	for (unsigned i=0;i<n && !end;++i)
	{
		Step s; s.follow=r.chance(1,3); s.any=r.chance(1,5); s.anyval=false;
		switch (r.below(o.closes?9:8))
		{
			case 5: s.op=Step::Attr; s.name=at(); end=true; break;
			case 6: case 7: s.op=Step::Cond; s.name=at(); s.value=vocab().values[ r.chance(2,3)?r.below(3):r.below( vocab().values.size())]; if (r.chance(3,4)) s.any=false; break;
			case 8: s.op=Step::Close; s.any=true; end=true; break;
			default: s.op=Step::Tag; s.name=nm(); break;
		}
		x.steps.push_back( s);
	}
	if (!x.steps.empty() && x.steps.back().op==Step::Attr) x.out=Expr::AttrVal;
	else if (!x.steps.empty() && x.steps.back().op==Step::Close) x.out=Expr::Trigger;
	else if (x.steps.empty() || r.chance(1,2)) {x.out=Expr::Content; x.outFollow=r.chance(1,3);}
	if (o.ranges && x.out!=Expr::Trigger && r.chance(1,3)) {x.rangeKind=1+r.below(5); x.r1=r.below(4); x.r2=x.r1+(int)r.below(3); if (r.chance(1,6)) x.r2=(int)r.below(3); bigIndex( r, x, o);}
	return x;
}
// expression that follows a path in the document
inline Expr genFrom( Rng& r, const Doc& d, int type, const ExprOpt& o)
{
	Expr x; x.type=type; std::vector<size_t> tags; for (size_t i=0;i<d.ev.size();++i) if (d.ev[i].type==XB::OpenTag) tags.push_back( i);
	if (tags.empty()) return genExpr( r, 2, type, o);
	std::vector<int> chain; for (int s=d.ev[ tags[ r.below( tags.size())]].newscope;s>0;s=d.parent[s]) chain.push_back( s);
	std::reverse( chain.begin(), chain.end()); bool gap=false;
	auto attrs=[&]( int s) {std::vector<std::pair<U,U> > a; for (size_t i=0;i+1<d.ev.size();++i) if (d.ev[i].type==XB::TagAttribName && d.ev[i].scope==s) a.push_back( std::make_pair( d.ev[i].key, d.ev[i+1].key)); return a;};
	unsigned keep=chain.size()<=o.maxsteps?100:(unsigned)(100*o.maxsteps/chain.size());
	for (int s:chain)
	{
		if (x.steps.size()>=2*o.maxsteps || !r.chance( std::max(keep,20u)*9/10, 100)) {gap=true; continue;}
		Step t; t.op=Step::Tag; t.follow=gap||r.chance(1,8); t.any=r.chance(1,6); t.anyval=false; for (size_t i:tags) if (d.ev[i].newscope==s) t.name=d.ev[i].key;
		x.steps.push_back( t); gap=false; std::vector<std::pair<U,U> > a=attrs( s);
		size_t from=0; while (from<a.size() && r.chance(1,3)) {size_t k=from+r.below( a.size()-from); Step c; c.op=Step::Cond; c.follow=r.chance(1,8); c.any=r.chance(1,6); c.anyval=r.chance(1,12); c.name=a[k].first; c.value=a[k].second; x.steps.push_back( c); from=k+1;}
	}
	int last=chain.back(); std::vector<std::pair<U,U> > a=attrs( last);
	switch (r.below(5))
	{
		case 0: if (!a.empty()) {Step t; t.op=Step::Attr; t.follow=gap||r.chance(1,8); t.any=r.chance(1,6); t.anyval=false; t.name=r.pick( a).first; x.steps.push_back( t); x.out=Expr::AttrVal; return x;}
		// fall through
		case 1: if (o.closes) {Step t; t.op=Step::Close; t.follow=gap||r.chance(1,8); t.any=true; t.anyval=false; x.steps.push_back( t); x.out=Expr::Trigger; return x;}
		// fall through
		case 2: x.out=Expr::Trigger; if (x.steps.empty()) {x.out=Expr::Content; x.outFollow=true;} break;
		default: x.out=Expr::Content; x.outFollow=gap||r.chance(1,6); if (o.ranges && r.chance(1,3)) {x.rangeKind=1+r.below(5); x.r1=r.below(3); x.r2=x.r1+(int)r.below(2); if (r.chance(1,6)) x.r2=(int)r.below(2); bigIndex( r, x, o);}
	}
	return x;
}
inline std::string show( const Expr& x)
{
	std::string s="(*atm)";
	for (auto& t:x.steps)
	{
		if (t.follow) s+="--";
		std::string n=t.any?std::string("0"):"\""+vf::show( enc::u8( t.name))+"\"";
		switch (t.op) {case Step::Tag: s+="["+n+"]"; break; case Step::Attr: s+="("+n+")"; break; case Step::Cond: s+="("+n+","+(t.anyval?std::string("0"):"\""+vf::show( enc::u8( t.value))+"\"")+")"; break; default: s+=".selectCloseTag()";}
	}
	if (x.out==Expr::Content) s+=x.outFollow?"--()":"()";
	switch (x.rangeKind) {case 1: s+=".INDEX("+vf::num(x.r1)+")"; break; case 2: s+=".RANGE("+vf::num(x.r1)+","+vf::num(x.r2)+")"; break; case 3: s+=".FROM("+vf::num(x.r1)+")"; break; case 4: s+=".TO("+vf::num(x.r2)+")"; break; case 5: s+=".FROM("+vf::num(x.r1)+").TO("+vf::num(x.r2)+")"; break; default: break;}
	return s+"="+vf::num(x.type);
}

// ---- reference: number of ways an event is selected by an expression, by the definition of the steps
inline bool compat( const Doc& d, int tokscope, int evscope, bool follow)
{
	if (tokscope==evscope) return true;
	if (evscope==d.header && d.header>=0 && tokscope==0) return true;	// the header has no own level
	if (follow) for (int s=evscope;s>=0;s=d.parent[s]) if (s==tokscope) return true;
	return false;
}
inline bool isOp( int op, int type)
{
	switch (op)
	{
		case Step::Tag: return type==XB::OpenTag||type==XB::HeaderStart;
		case Step::Close: return type==XB::CloseTag||type==XB::CloseTagIm||type==XB::HeaderEnd;
		default: return type==XB::TagAttribName||type==XB::HeaderAttribName;
	}
}
inline bool isVal( int type) {return type==XB::TagAttribValue||type==XB::HeaderAttribValue;}
struct Hit { uint64_t n; };
// result: [event] -> number of times
// (only: count the matches whose last step is the event with this index)
inline std::vector<uint64_t> evaluate( const Doc& d, const Expr& x, long only=-2)
{
	size_t n=d.ev.size(); std::vector<uint64_t> res( n,0);
	// partial matches: cnt[e]: number of ways the steps so far are matched, the last one by event e (after e); start: virtual event before the first in scope 0
	struct P { long at; int scope; uint64_t n; };
	std::vector<P> cur; {P p={-1,0,1}; cur.push_back( p);}
	for (size_t k=0;k<x.steps.size();++k)
	{
		const Step& s=x.steps[k]; std::vector<P> next;
		for (size_t e=0;e<n;++e)
		{
			const Event& v=d.ev[e]; if (!isOp( s.op, v.type) || !(s.any || s.name==v.key)) continue;
			uint64_t c=0; for (auto& p:cur) if (p.at<(long)e && compat( d, p.scope, v.scope, s.follow)) c+=p.n;
			if (!c) continue;
			if (s.op==Step::Cond)
			{
				if (e+1>=n || !isVal( d.ev[e+1].type) || !(s.anyval || d.ev[e+1].key==s.value)) continue;
				P q={(long)e+1,d.ev[e+1].newscope,c}; next.push_back( q);
			}
			else {P q={(long)e,v.newscope,c}; next.push_back( q);}
		}
		cur.swap( next);
	}
	for (auto& p:cur)
	{
		if (only!=-2 && p.at!=only) continue;
		switch (x.out)
		{
			case Expr::Trigger: if (p.at>=0) res[p.at]+=p.n; break;
			case Expr::AttrVal: if (p.at+1<(long)n && isVal( d.ev[p.at+1].type) && x.inRange(0)) res[p.at+1]+=p.n; break;
			default: {
				int i=0; for (size_t e=(size_t)(p.at+1);e<n;++e) if (d.ev[e].type==XB::Content && compat( d, p.scope, d.ev[e].scope, x.outFollow)) {if (x.inRange(i)) res[e]+=p.n; ++i;}
			}
		}
	}
	return res;
}

// ---- use of the library
template <class CS> struct Lib
{
	typedef XMLPathSelectAutomaton<CS> Atm; typedef XMLPathSelect<CS> Sel;
	typedef typename Atm::PathElement PE;
	static int id() {return cs::Info<CS>::id;}
	static std::string bytes( const U& u) {return enc::prn( u, id());}
	// key for the interface: numeric references for some (and for all not representable) characters, null terminated block of exact size
	struct Key
	{
		char* p;
		Key( Rng& r, const U& u)
		{
			std::string s; unsigned un=enc::unit( id());
			for (size_t i=0;i<u.size();++i)
			{
				char32_t c=u[i]; bool esc=!enc::rep( id(), c) || r.chance(1,12) || (c=='&' && i+1<u.size() && u[i+1]=='#');
				if (!esc) enc::put( s, id(), c);
				else {char b[32]; snprintf( b, sizeof(b), r.chance(1,2)?"&#%u;":(r.chance(1,2)?"&#x%x;":"&#x%X;"), (unsigned)c); for (char* q=b;*q;++q) enc::put( s, id(), (unsigned char)*q);}
			}
			p=(char*)malloc( s.size()+un); if (!p) throw std::bad_alloc(); memcpy( p, s.data(), s.size()); memset( p+s.size(), 0, un);
		}
		~Key() {free( p);}
	private: Key( const Key&);
	};
	static void define( Rng& r, Atm& atm, const Expr& x)
	{
		PE pe=*atm;
		for (auto& s:x.steps)
		{
			if (s.follow) {if (r.chance(1,2)) pe--; else pe.forAllDescendants();}
			Key n( r, s.name), v( r, s.value); const char* np=s.any?0:n.p; const char* vp=s.anyval?0:v.p;
			if (r.chance(1,4)) {PE copy( pe); pe=copy;}
			if (r.chance(1,30)) {PE none; none[ np]; if (s.op==Step::Cond) none.ifAttribute( np, vp); none(); none=1; vf::count( "calls of path elements of no automaton"); none=pe; pe=none;}
			switch (s.op)
			{
				case Step::Tag: if (r.chance(1,2)) pe[ np]; else pe.selectTag( np); break;
				case Step::Attr: if (r.chance(1,2)) pe( np); else pe.selectAttribute( np); break;
				case Step::Cond: if (r.chance(1,2)) pe( np, vp); else pe.ifAttribute( np, vp); break;
				default: pe.selectCloseTag();
			}
		}
		if (x.out==Expr::Content) {if (x.outFollow) pe--; if (r.chance(1,2)) pe(); else pe.selectContent();}
		switch (x.rangeKind) {case 1: pe.INDEX( x.r1); break; case 2: pe.RANGE( x.r1, x.r2); break; case 3: pe.FROM( x.r1); break; case 4: pe.TO( x.r2); break; case 5: if (r.chance(1,2)) {pe.FROM( x.r1); pe.TO( x.r2);} else {pe.TO( x.r2); pe.FROM( x.r1);} break; default: break;}
		if (r.chance(1,2)) pe=x.type; else pe.assignType( x.type);
	}
	// pushes an event with a key block of exact size, appends the types selected
	template <class S> static void push( Rng& r, S& sel, int type, const std::string& key, std::vector<int>& out)
	{
		char* p=(char*)malloc( key.size()?key.size():1); memcpy( p, key.data(), key.size());
		bool str=r.chance(1,8); typename S::iterator it=str?sel.push( (XB::ElementType)type, key):sel.push( (XB::ElementType)type, p, (int)key.size()), en=sel.end();
		while (it!=en)
		{
			out.push_back( *it); if (*(it.operator->())!=out.back()) vf::fail( "operator-> of the iterator differs");
			if (out.size()>20000000) vf::fail( "selector does not end");
			if (r.chance(1,2)) ++it; else it++;
		}
		free( p); std::sort( out.begin(), out.end());
	}
};
inline int typeBase( Rng& r) {static const int b[]={120,250,32760,65530,1<<24,1<<30,0x7FFFFFFF-200}; return b[ r.below(7)];}
inline std::string show( const std::vector<int>& v) {std::string s; for (size_t i=0;i<v.size()&&i<30;++i) s+=" "+vf::num(v[i]); if (v.size()>30) s+=" ...("+vf::num(v.size())+")"; return s;}
}
