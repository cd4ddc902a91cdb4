// C15: path selection reports exactly the elements an expression selects
#include "pathmodel.hpp"
namespace vf {
const Check check={"C15",160000,6000000,"distinct (document, set of expressions, character set) triples with at least one element selected",0,60};
using namespace textwolf;
// index ranges on tags are ignored (known finding)
void init()
{
	typedef pm::Lib<charset::UTF8> L; Rng r(1); L::Atm atm; (*atm)["a"]["b"].INDEX(1)=1; L::Sel sel( &atm);
	static const struct {int t; const char* k; } ev[]={{pm::XB::OpenTag,"a"},{pm::XB::OpenTag,"b"},{pm::XB::CloseTagIm,""},{pm::XB::OpenTag,"b"},{pm::XB::CloseTagIm,""},{pm::XB::OpenTag,"b"},{pm::XB::CloseTagIm,""},{pm::XB::CloseTag,"a"}};
	std::string got; for (auto& e:ev) {std::vector<int> o; L::push( r, sel, e.t, e.k, o); got+=num(o.size());}
	count( "probes of known findings");
	if (got=="01010100") known( "tag-index", "index ranges on tags have no effect: (*atm)[\"a\"][\"b\"].INDEX(1)=1 selects every b in <a><b/><b/><b/></a>");
	else if (got!="00010000") fail( "(*atm)[\"a\"][\"b\"].INDEX(1)=1 selects the elements "+got+" of <a><b/><b/><b/></a>");
}
struct Run
{
	Rng& r; const pm::Doc& d; const std::vector<pm::Expr>& xs; std::vector<std::vector<int> > want; uint64_t hits;
	template <class CS> void go()
	{
		typedef pm::Lib<CS> L; typename L::Atm atm;
		for (auto& x:xs) L::define( r, atm, x);
		unsigned passes=r.chance(1,6)?2:1;
		for (unsigned p=0;p<passes;++p)
		{
			typename L::Sel sel( &atm);
			if (r.chance(1,4)) scanned<CS>( sel); else
			for (size_t i=0;i<d.ev.size();++i)
			{
				std::vector<int> got; L::push( r, sel, d.ev[i].type, L::bytes( d.ev[i].key), got);
				compare( i, got);
			}
		}
	}
	void compare( size_t i, const std::vector<int>& got)
	{
		if (got!=want[i]) fail( "element "+num(i)+" "+pm::XB::getElementTypeName( (pm::XB::ElementType)d.ev[i].type)+" '"+show( enc::u8( d.ev[i].key))+"' selected as"+pm::show( got)+", expected"+pm::show( want[i]));
		hits+=got.size(); count( "elements pushed"); count( "selections", got.size());
	}
	static std::string esc( const pm::U& u, bool att) {std::string s; for (char32_t c:u) {if (c=='&') s+="&amp;"; else if (c=='<') s+="&lt;"; else if (c=='"') s+="&quot;"; else if (c=='\n'||c=='\'') s+="&#"+num(c)+";"; else enc::put( s, enc::UTF8, c);} (void)att; return s;}
	// through the scanner of the library
	template <class CS> void scanned( typename pm::Lib<CS>::Sel& sel)
	{
		std::string b; bool open=false; typedef pm::XB XB;
		auto close=[&]() {if (open) b+=">"; open=false;};
		for (auto& e:d.ev) switch (e.type)
		{
			case XB::HeaderStart: b+="<?xml"; break;
			case XB::HeaderEnd: b+="?>\n"; break;
			case XB::HeaderAttribName: case XB::TagAttribName: b+=" "+esc( e.key, true); break;
			case XB::HeaderAttribValue: case XB::TagAttribValue: b+=(r.chance(1,2)?"=\"":" = \"")+esc( e.key, true)+"\""; break;
			case XB::DocAttribValue: b+=e.key==U"DOCTYPE"?"<!DOCTYPE ":esc( e.key, true); break;
			case XB::DocAttribEnd: b+=">"; break;
			case XB::OpenTag: close(); b+="<"+esc( e.key, false); open=true; break;
			case XB::CloseTagIm: b+="/>"; open=false; break;
			case XB::CloseTag: close(); b+="</"+esc( e.key, false)+">"; break;
			default: close(); b+=esc( e.key, false);
		}
		typedef XMLScanner<SrcIterator,charset::UTF8,CS,std::string> S; typedef pm::Lib<CS> L;
		S sc( charset::UTF8(), SrcIterator( b.data(), b.size(), 0)); std::vector<std::pair<int,std::string> > evs;
		for (;;) {int t=sc.nextItem(); if (t==XB::Exit||t==XB::ErrorOccurred) break; evs.push_back( std::make_pair( t, std::string( sc.getItemPtr(), sc.getItemSize())));}
		bool same=evs.size()==d.ev.size(); for (size_t i=0;same&&i<evs.size();++i) same=evs[i].first==d.ev[i].type && evs[i].second==L::bytes( d.ev[i].key);
		if (!same) {count( "documents not scanned as generated (not used)"); return;}
		S s2( charset::UTF8(), SrcIterator( b.data(), b.size(), 0)); typename S::iterator it=s2.begin(), en=s2.end(); size_t i=0;
		for (;it!=en;++it,++i) {std::vector<int> got; L::push( r, sel, it->type(), std::string( it->content(), it->size()), got); compare( i, got);}
		count( "documents through the scanner");
	}
};
// very long names and values: lengths that differ by a power of two
static void longNames( Rng& r)
{
	typedef pm::XB XB;
	const size_t step=(size_t)1<<(r.chance(1,2)?8:16); std::string n( 1+r.below(3), 'n'), m=n+std::string( step, 'n'); if (r.chance(1,2)) std::swap( n, m);
	unsigned kind=r.below(3); XMLPathSelectAutomaton<charset::UTF8> atm; note( "names of "+num( n.size())+" and "+num( m.size())+" bytes, kind "+num( kind)); count( "very long names");
	switch (kind) {case 0: (*atm)[ n.c_str()]=1; break; case 1: (*atm)["t"]( n.c_str())=1; break; default: (*atm)["t"]( "k", n.c_str())=1;}
	for (int other=0;other<2;++other)
	{
		const std::string& v=other?m:n; XMLPathSelect<charset::UTF8> sel( &atm); unsigned hits=0; auto p=[&]( XB::ElementType t, const std::string& k) {std::vector<int> got; pm::Lib<charset::UTF8>::push( r, sel, t, k, got); hits+=got.size();};
		if (kind==0) p( XB::OpenTag, v); else {p( XB::OpenTag, "t"); p( XB::TagAttribName, kind==1?v:"k"); p( XB::TagAttribValue, kind==1?"x":v);} p( XB::CloseTagIm, "");
		if (hits!=(other?0u:1u)) fail( num( v.size())+" bytes selected "+num( hits)+" times by an expression for "+num( n.size())+" bytes");
	}
}
// names and values with numeric references and with what only looks like one
struct Refs
{
	Rng& r; pm::U raw, val, other;
	template <class CS> void go()
	{
		typedef pm::XB XB; typedef pm::Lib<CS> L; typename L::Atm atm; unsigned kind=r.below(3), un=enc::unit( L::id());
		std::string b=L::bytes( raw); char* k=(char*)malloc( b.size()+un); if (!k) throw std::bad_alloc(); memcpy( k, b.data(), b.size()); memset( k+b.size(), 0, un);
		std::string t=L::bytes( U"t")+std::string( un, 0), a=L::bytes( U"k")+std::string( un, 0);
		switch (kind) {case 0: (*atm)[ k]=1; break; case 1: (*atm)[ t.c_str()]( k)=1; break; default: (*atm)[ t.c_str()]( a.c_str(), k)=1;}
		free( k);
		for (int i=0;i<2;++i)
		{
			const pm::U& v=i?other:val; if (i && v==val) continue; std::string vb=L::bytes( v); typename L::Sel sel( &atm); unsigned hits=0; auto p=[&]( int e, const std::string& key) {std::vector<int> got; L::push( r, sel, e, key, got); hits+=got.size();};
			if (kind==0) p( XB::OpenTag, vb); else {p( XB::OpenTag, L::bytes( U"t")); p( XB::TagAttribName, kind==1?vb:L::bytes( U"k")); p( XB::TagAttribValue, kind==1?L::bytes( U"x"):vb);} p( XB::CloseTagIm, "");
			if (hits!=(i?0u:1u)) fail( std::string("an expression with the ")+(kind==0?"tag":kind==1?"attribute":"value")+" '"+enc::u8( raw)+"' selected '"+enc::u8( v)+"' "+num( hits)+" times, expected "+(i?"0":"1")); count( "elements pushed", 3); count( "selections", hits);
		}
	}
};
static void references( Rng& r)
{
	pm::U u; unsigned n=1+r.below(5); bool odd=false;
	while (n--)
	{
		if (r.chance(1,4)) {u+=U'a'+r.below(26); continue;}
		u+=U'&'; if (r.chance(1,12)) continue; u+=U'#'; bool hex=r.chance(1,2); if (hex) u+=r.chance(1,8)?U'X':U'x';
		unsigned k=r.chance(1,10)?0:hex?2+r.below(3):2+r.below(3); const char32_t* dig=(hex||r.chance(1,6))?U"0123456789abcdefABCDEF":U"0123456789"; unsigned nd=dig[10]?22:10;
		for (unsigned i=0;i<k;++i) u+=dig[ r.below( nd)]; if (r.chance(1,10)) u+=U"gGxX#-;"[ r.below(7)]; if (!r.chance(1,8)) u+=U';';
	}
	pm::U v, w;
	for (size_t i=0;i<u.size();++i)
	{
		size_t e=i+2; uint64_t c=0; unsigned base=10; bool ok=u[i]==U'&' && i+1<u.size() && u[i+1]==U'#';
		if (ok && e<u.size() && u[e]==U'x') {base=16; ++e;}
		for (;ok && e<u.size() && u[e]!=U';';++e) {char32_t d=u[e]; unsigned x=d>=U'0'&&d<=U'9'?d-U'0':d>=U'a'&&d<=U'f'?d-U'a'+10:d>=U'A'&&d<=U'F'?d-U'A'+10:99; if (x>=base||c>0xFFFFFF) ok=false; else c=c*base+x;}
		if (ok && (e>=u.size() || c==0)) ok=false;
		if (!ok) {v+=u[i]; w+=u[i]; if (u[i]==U'&') odd=true; continue;}
		if (c<33 || (c>=0xD800&&c<0xE000) || c>0x10FFFF) {--i; u.erase( i+1, e-i); continue;}	// not of interest here
		v+=(char32_t)c; w+=u.substr( i, e-i+1); i=e;
	}
	if (v.empty()) return;
	pm::U other=v==w?pm::U():w; if (odd || other.empty())
	{
		// what a lax reader of references would get
		pm::U lax; for (size_t i=0;i<u.size();++i) {size_t e=u.find( U';', i); if (u[i]==U'&' && i+1<u.size() && u[i+1]==U'#' && e!=pm::U::npos) {uint32_t c=0; size_t k=i+2; unsigned base=10; if (k<e&&(u[k]|32)==U'x') {base=16; ++k;} for (;k<e;++k) {char32_t d=u[k]; unsigned x=d>=U'0'&&d<=U'9'?d-U'0':d>=U'a'&&d<=U'f'?d-U'a'+10:d>=U'A'&&d<=U'F'?d-U'A'+10:0; c=c*base+x;} if (c>=33&&c<0xD800) {lax+=(char32_t)c; i=e; continue;}} lax+=u[i];}
		if (lax!=v) other=lax;
	}
	if (other.empty()) other=v+U"z";
	int id=r.chance(1,2)?(int)enc::UTF8:(int)r.below( enc::NofEnc); for (char32_t c:u) if (!enc::rep( id, c)) return; for (char32_t c:v) if (!enc::rep( id, c)) id=enc::UTF8; for (char32_t c:other) if (!enc::rep( id, c)) {other=v+U"z"; break;}
	note( std::string("references in ")+enc::name(id)+" '"+enc::u8( u)+"'"); count( odd?"names with broken references":"names with references");
	Refs x={r,u,v,other}; cs::visit( id, x); distinct( mix( 0x115, hash( enc::u8( u))));
}
// numbers of tokens, states, levels and contents behind the limits of 16 bit integers
static void limits( Rng& r, unsigned kind)
{
	typedef pm::XB XB; typedef pm::Lib<charset::UTF8> L; typename L::Atm atm; std::vector<int> got, want; static const char* what[]={"many partial matches at different levels","many descendant steps active","many states","ranges of many contents","many attributes","many root elements","many open elements"};
	note( std::string("limits: ")+what[kind]); count( what[kind]);
	auto check=[&]( size_t at, const char* ev) {std::sort( want.begin(), want.end()); if (got!=want) fail( std::string(what[kind])+": "+ev+" "+num(at)+" selected as"+pm::show( got)+", expected"+pm::show( want)); count( "elements pushed"); count( "selections", got.size()); got.clear(); want.clear();};
	switch (kind)
	{
		case 0: case 1:
		{
			unsigned K=60+r.below(20), D=66000/K+1+r.below(200);
			for (unsigned i=0;i<K;++i) {std::string z="z"+num(i); if (kind==0) (*atm)--["a"][ z.c_str()]=1+i; else (*atm)--["a"]--[ z.c_str()]=1+i;}
			L::Sel sel( &atm);
			for (unsigned d=1;d<=D;++d) {L::push( r, sel, XB::OpenTag, "a", got); check( d, "level");}
			for (unsigned d=D;d>0;--d)
			{
				for (unsigned n=(d==D||d==1)?4:r.chance(1,50)?1:0;n;--n) {unsigned i=r.below(K); L::push( r, sel, XB::OpenTag, "z"+num(i), got); want.insert( want.end(), kind==0?1:d, 1+i); check( d, "tag below level"); L::push( r, sel, XB::CloseTagIm, "", got); check( d, "close tag below level");}
				L::push( r, sel, XB::CloseTag, "a", got); check( d, "close tag of level");
			}
			L::push( r, sel, XB::OpenTag, "z0", got); check( 0, "tag"); maxv( "partial matches held", (uint64_t)K*D); break;
		}
		case 2:
		{
			unsigned P=300, C=260; for (unsigned i=0;i<P;++i) for (unsigned j=0;j<C;++j) (*atm)[ ("p"+num(i)).c_str()][ ("c"+num(j)).c_str()]=1+i*C+j;
			L::Sel sel( &atm); L::push( r, sel, XB::OpenTag, "p0", got); L::push( r, sel, XB::CloseTagIm, "", got); check( 0, "tag");
			for (unsigned k=0;k<300;++k)
			{
				unsigned i=k<40?P-1-k:r.below(P); L::push( r, sel, XB::OpenTag, "p"+num(i), got); check( i, "tag");
				for (unsigned n=0;n<3;++n) {unsigned j=r.below(C+4); L::push( r, sel, XB::OpenTag, "c"+num(j), got); if (j<C) want.push_back( 1+i*C+j); check( i*C+j, "child"); L::push( r, sel, XB::CloseTagIm, "", got); check( j, "close of child");}
				L::push( r, sel, XB::CloseTag, "p"+num(i), got); check( i, "close of tag");
			}
			maxv( "states defined", (uint64_t)P*C+P); break;
		}
		case 3:
		{
			static const int at[]={3,127,128,255,256,257,259,32767,32768,65535,65536,65537,65539}; int t=0; (*atm)["a"]()=1000;
			for (int n:at) {++t; (*atm)["a"]().INDEX( n)=t; (*atm)["a"]().FROM( n)=100+t; (*atm)["a"]().TO( n)=200+t; (*atm)["a"]().RANGE( n, n+2)=300+t;}
			L::Sel sel( &atm); L::push( r, sel, XB::OpenTag, "a", got); check( 0, "tag");
			for (int n=0;n<65600;++n)
			{
				L::push( r, sel, XB::Content, "x", got); want.push_back( 1000); t=0; for (int k:at) {++t; if (n==k) want.push_back( t); if (n>=k) want.push_back( 100+t); if (n<=k) want.push_back( 200+t); if (n>=k&&n<=k+2) want.push_back( 300+t);}
				check( n, "content");
				if (r.chance(1,4)) {L::push( r, sel, XB::OpenTag, "b", got); check( n, "tag"); L::push( r, sel, XB::CloseTagIm, "", got); check( n, "close");}
			}
			break;
		}
		case 4:
		{
			(*atm)["a"]("k")=1; (*atm)["a"]("k","v")=2; (*atm)["a"]("i","7")("k","v")=3; (*atm)--("i","7")()=4; L::Sel sel( &atm); L::push( r, sel, XB::OpenTag, "a", got); check( 0, "tag"); unsigned seven=0, kv=0, n=66000+r.below( 500);
			for (unsigned i=0;i<n;++i) {bool s=(i==1||i==n-2); L::push( r, sel, XB::TagAttribName, s||i%1024==5?"i":"j", got); check( i, "attribute name"); L::push( r, sel, XB::TagAttribValue, s||i%1024!=5?"7":"8", got); seven+=s; check( i, "attribute value");
				if (i%8192==8191||i==n-1) {L::push( r, sel, XB::TagAttribName, "k", got); check( i, "attribute name"); L::push( r, sel, XB::TagAttribValue, "v", got); ++kv; want.push_back( 1); want.push_back( 2); want.insert( want.end(), seven, 3); check( i, "attribute value");}}
			L::push( r, sel, XB::Content, "text", got); want.insert( want.end(), seven, 4); check( n, "content"); break;
		}
		case 6:
		{
			(*atm)["a"]["a"]["z"]=1; (*atm)--["a"]["z"]=2; (*atm)["a"]()=3; (*atm)--["z"]("k")=4; (*atm)["a"]--["y"]()=5; (*atm)["a"].selectCloseTag()=6; L::Sel sel( &atm); const unsigned D=66000+r.below( 600);
			auto inside=[&]( unsigned d)
			{
				L::push( r, sel, XB::OpenTag, "z", got); if (d>=1) want.push_back( 2); if (d==2) want.push_back( 1); check( d, "tag below level"); L::push( r, sel, XB::TagAttribName, "k", got); check( d, "attribute name"); L::push( r, sel, XB::TagAttribValue, "v", got); want.push_back( 4); check( d, "attribute value");
				L::push( r, sel, XB::OpenTag, "y", got); check( d, "tag below level"); L::push( r, sel, XB::Content, "x", got); if (d>=1) want.push_back( 5); check( d, "content below level"); L::push( r, sel, XB::CloseTagIm, "", got); check( d, "close"); L::push( r, sel, XB::CloseTag, "z", got); check( d, "close");
				if (d) {L::push( r, sel, XB::Content, "x", got); if (d==1) want.push_back( 3); check( d, "content of level");}
			};
			for (unsigned d=1;d<=D;++d) {L::push( r, sel, XB::OpenTag, "a", got); check( d, "level"); if (d==1||d==2||d==255||d==256||d==257||d==65535||d==65536||d==65537||r.chance(1,2000)) inside( d);}
			for (unsigned d=D;d>0;--d) {if (d==1||d==2||d==255||d==256||d==257||d==65535||d==65536||d==65537||r.chance(1,2000)) inside( d); L::push( r, sel, XB::CloseTag, "a", got); if (d==1) want.push_back( 6); check( d, "close tag of level");}
			inside( 0); maxv( "elements open in limits", D); break;
		}
		default:
		{
			(*atm)["a"]["b"]()=1; (*atm)--["b"]("k","v")()=2; (*atm)["c"]()=3; L::Sel sel( &atm);
			for (unsigned i=0;i<66500;++i)
			{
				L::push( r, sel, XB::OpenTag, "a", got); check( i, "root"); L::push( r, sel, XB::OpenTag, "b", got); check( i, "tag"); bool k=i%3==0;
				if (k) {L::push( r, sel, XB::TagAttribName, "k", got); check( i, "attribute name"); L::push( r, sel, XB::TagAttribValue, "v", got); check( i, "attribute value");}
				L::push( r, sel, XB::Content, "x", got); want.push_back( 1); if (k) want.push_back( 2); check( i, "content");
				L::push( r, sel, XB::CloseTag, "b", got); check( i, "close"); L::push( r, sel, XB::CloseTag, "a", got); check( i, "close");
			}
		}
	}
	distinct( 0x117+kind);
}
void run( uint64_t idx, Rng& r)
{
	if (idx%20000==77) {limits( r, (unsigned)(idx/20000)%7); return;}
	if (r.chance(1,300)) {longNames( r); return;}
	if (r.chance(1,40)) {references( r); return;}
	unsigned names=r.chance(1,3)?2+r.below(2):r.chance(1,2)?5:r.chance(1,2)?10:(unsigned)pm::vocab().names.size();
	pm::DocGen g( r, names, r.chance(1,12)?30:1+r.below(5), r.chance(1,10)?400:10+r.below(120)); g.generate();
	pm::ExprOpt o; o.maxsteps=1+r.below(4); o.maxidx=0x7FFFFFFF; std::vector<pm::Expr> xs; unsigned n=1+r.below( r.chance(1,4)?14:5);
	for (unsigned i=0;i<n;++i)
	{
		if (!xs.empty() && r.chance(1,3)) {pm::Expr x=xs[ r.below( xs.size())]; pm::Expr y=pm::genExpr( r, names, 0, o); size_t k=r.below( x.steps.size()+1); x.steps.resize( k); if (k==0||x.steps.back().op!=pm::Step::Attr) {if (k<3) x.steps.insert( x.steps.end(), y.steps.begin(), y.steps.end()); bool bad=false; for (size_t j=0;j+1<x.steps.size();++j) if (x.steps[j].op==pm::Step::Attr||x.steps[j].op==pm::Step::Close) bad=true; if (!bad && !x.steps.empty()) {x.out=x.steps.back().op==pm::Step::Attr?pm::Expr::AttrVal:(x.steps.back().op==pm::Step::Close||r.chance(1,2))?pm::Expr::Trigger:pm::Expr::Content; if (x.out!=pm::Expr::Content) x.outFollow=false; if (x.out==pm::Expr::Trigger) x.rangeKind=0; x.type=1+i; xs.push_back( x); continue;}}}
		if (r.chance(3,5)) {xs.push_back( pm::genFrom( r, g.d, r.chance(1,8)?1+(int)r.below(n):1+(int)i, o)); continue;}
		xs.push_back( pm::genExpr( r, names, r.chance(1,8)?1+(int)r.below(n):1+(int)i, o));
	}
	std::string head; for (auto& x:xs) head+=pm::show( x)+"\n"; int id=r.chance(1,2)?(int)enc::UTF8:(int)r.below( enc::NofEnc);
	head=std::string("character set ")+enc::name(id)+"\n"+head+pm::show( g.d); note( head.substr( 0, 6000)); if (idx<30&&idx%9==0&&head.size()<1200) sample( head);
	if (r.chance(1,8)) {int tb=pm::typeBase( r); for (auto& x:xs) x.type+=tb;}
	Run run={r,g.d,xs,std::vector<std::vector<int> >( g.d.ev.size()),0};
	for (auto& x:xs)
	{
		std::vector<uint64_t> h=pm::evaluate( g.d, x); uint64_t t=0;
		for (size_t i=0;i<h.size();++i) {t+=h[i]; if (h[i]>200000) {count( "cases with too many selections skipped"); return;} run.want[i].insert( run.want[i].end(), h[i], x.type);}
		count( t?"expressions with matches":"expressions without matches"); if (t>1) maxv( "selections of one expression", t);
		uint64_t shape=x.out*4+x.rangeKind; for (auto& s:x.steps) shape=mix( shape, s.op*4+s.follow*2+s.any); if (t) seen( "shapes of expressions with matches", shape);
	}
	for (auto& w:run.want) std::sort( w.begin(), w.end());
	cs::visit( id, run); maxv( "depth", g.d.depth); maxv( "elements", g.d.ev.size());
	if (run.hits) distinct( hash( head));
}
}
