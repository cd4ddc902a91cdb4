// C25: the inspection functions of selector and automaton announce what is selected next
#include "pathmodel.hpp"
namespace vf {
extern const Check check;
const Check check={"C25",40000,1500000,"distinct (document, set of expressions, character set) triples with at least one state announced",0,60};
using pm::Expr; using pm::XB; using namespace textwolf;
void init() {}
struct Run
{
	Rng& r; const pm::Doc& d; const std::vector<Expr>& xs; uint64_t hits;
	typedef std::vector<int> V;
	// the types selected by the last of the events, optionally only those the event 'only' was the last step of
	V model( const pm::Doc& x, long only) {V v; for (auto& e:xs) {uint64_t n=pm::evaluate( x, e, only).back(); v.insert( v.end(), n, e.type);} std::sort( v.begin(), v.end()); return v;}
	template <class CS> void go()
	{
		typedef pm::Lib<CS> L; typename L::Atm atm; for (auto& x:xs) L::define( r, atm, x);
		typename L::Sel sel( &atm), plain( &atm); pm::Doc pre;
		for (size_t i=0;i<d.ev.size();++i)
		{
			V tmp, same; L::push( r, sel, d.ev[i].type, L::bytes( d.ev[i].key), tmp); L::push( r, plain, d.ev[i].type, L::bytes( d.ev[i].key), same);
			if (tmp!=same) fail( "element "+num(i)+" selected as"+pm::show( tmp)+" by an inspected selector, as"+pm::show( same)+" otherwise");
			pre.ev.push_back( d.ev[i]);
			if (r.chance(1,3)) inspect<CS>( atm, sel, pre);
		}
	}
	template <class CS> void inspect( const typename pm::Lib<CS>::Atm& atm, typename pm::Lib<CS>::Sel& sel, const pm::Doc& pre)
	{
		typedef pm::Lib<CS> L; int last=pre.ev.back().type; long at=(long)pre.ev.size()-1;
		bool isattr=last==XB::TagAttribName||last==XB::HeaderAttribName;
		if (isattr)
		{
			// only the value follows
			int vt=last==XB::TagAttribName?XB::TagAttribValue:XB::HeaderAttribValue;
			pm::Doc x=pre; add( x, vt, r.pick( pm::vocab().values)); pm::rescope( x);
			direct<CS>( atm, sel, vt, false, model( x, at), "attribute name");
			return;
		}
		if (last==XB::TagAttribValue||last==XB::HeaderAttribValue)
		{
			pm::Doc x=pre; add( x, XB::Content, U"x"); pm::rescope( x);
			direct<CS>( atm, sel, XB::Content, false, model( x, at), "attribute value");
			return;
		}
		if (last!=XB::OpenTag) return;
		{
			pm::Doc x=pre; add( x, XB::Content, U"x"); pm::rescope( x);
			direct<CS>( atm, sel, XB::Content, true, model( x, -2), "open tag");
			direct<CS>( atm, sel, XB::Content, false, model( x, at), "open tag");
		}
		pm::U n=r.chance(1,4)?pm::U(U"other"):pm::vocab().names[ r.below( pm::vocab().names.size())]; if (r.chance(1,2)) {size_t k=r.below( d.ev.size()); if (d.ev[k].type==XB::OpenTag) n=d.ev[k].key;}
		{pm::Doc x=pre; add( x, XB::OpenTag, n); add( x, XB::Content, U"x"); pm::rescope( x); next<CS>( atm, sel, XB::OpenTag, n, XB::Content, model( x, at+1));}
		pm::U a=r.chance(1,6)?pm::U(U"other"):pm::vocab().atts[ r.below( pm::vocab().atts.size())];
		{pm::Doc x=pre; add( x, XB::TagAttribName, a); add( x, XB::TagAttribValue, U"1"); pm::rescope( x); next<CS>( atm, sel, XB::TagAttribName, a, XB::TagAttribValue, model( x, at+1));}
	}
	static void add( pm::Doc& x, int t, const pm::U& k) {pm::Event e; e.type=t; e.key=k; e.scope=e.newscope=0; x.ev.push_back( e);}
	// states of outputs waiting for the type
	template <class CS> void direct( const typename pm::Lib<CS>::Atm& atm, const typename pm::Lib<CS>::Sel& sel, int type, bool follows, const V& want, const char* what)
	{
		V st, got; sel.getTokenTypeMatchingStates( (XB::ElementType)type, follows, st);
		for (int s:st) {if (s<0||(size_t)s>=atm.states.size()) fail( "state index "+num(s)+" out of range"); int t=atm.states[s].core.typeidx; if (t) got.push_back( t);}
		std::sort( got.begin(), got.end());
		if (got!=want) fail( std::string("after an ")+what+" the states matching "+XB::getElementTypeName( (XB::ElementType)type)+(follows?" with":" without")+" follows announce the types"+pm::show( got)+", expected"+pm::show( want));
		hits+=st.size(); count( "inspections"); count( "states announced", st.size());
	}
	// types produced by elements of type 'sub' directly after an element (type,key) with the states announced for it
	template <class CS> void next( const typename pm::Lib<CS>::Atm& atm, const typename pm::Lib<CS>::Sel& sel, int type, const pm::U& key, int sub, const V& want)
	{
		V st, got; std::string k=pm::Lib<CS>::bytes( key); sel.getTokenTypeMatchingStates( (XB::ElementType)type, true, st);
		for (int s:st)
		{
			if (s<0||(size_t)s>=atm.states.size()) fail( "state index "+num(s)+" out of range");
			if (atm.states[s].key && std::string( atm.states[s].key, atm.states[s].keysize)!=k) continue;
			V e; e.push_back( -1); atm.getEmmitedTokens( s, (XB::ElementType)sub, e); if (e[0]!=-1) fail( "the buffer of getEmmitedTokens was overwritten"); got.insert( got.end(), e.begin()+1, e.end());
			std::vector<unsigned char> none; atm.getEmmitedTokens( s, XB::DocAttribEnd, none); if (!none.empty()) fail( "tokens are emitted for the end of the document type");
		}
		std::sort( got.begin(), got.end());
		if (got!=want) fail( std::string("the tokens emitted by ")+XB::getElementTypeName( (XB::ElementType)sub)+" after "+XB::getElementTypeName( (XB::ElementType)type)+" '"+show( enc::u8( key))+"' are announced as"+pm::show( got)+", expected"+pm::show( want));
		hits+=got.size(); count( "inspections"); count( "tokens announced", got.size());
	}
};
void run( uint64_t idx, Rng& r)
{
	unsigned names=r.chance(1,2)?2+r.below(3):r.chance(1,2)?5:(unsigned)pm::vocab().names.size();
	pm::DocGen g( r, names, 1+r.below(6), 8+r.below( 40)); g.generate(); pm::rescope( g.d);
	pm::ExprOpt o; o.ranges=false; o.maxsteps=1+r.below(4); unsigned n=1+r.below( r.chance(1,4)?16:6); std::vector<Expr> xs;
	for (unsigned i=0;i<n;++i)
	{
		Expr x=r.chance(3,5)?pm::genFrom( r, g.d, 1+i, o):pm::genExpr( r, names, 1+i, o);
		if (!xs.empty() && r.chance(1,4)) {x=xs[ r.below( xs.size())]; x.type=1+i;}
		if (x.steps.empty() && x.out==Expr::Trigger) x.out=Expr::Content;
		xs.push_back( x);
	}
	std::string head; for (auto& x:xs) head+=pm::show( x)+"\n"; int id=r.chance(1,2)?(int)enc::UTF8:(int)r.below( enc::NofEnc);
	head=std::string("character set ")+enc::name(id)+"\n"+head+pm::show( g.d).substr( 0, 6000); note( head.substr( 0, 6000)); if (idx<40&&idx%9==0&&head.size()<1200) sample( head);
	Run run={r,g.d,xs,0}; cs::visit( id, run); if (run.hits) distinct( hash( head));
}
}
