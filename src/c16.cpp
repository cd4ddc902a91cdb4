// C16: path expressions as text mean the same as the calls they abbreviate
#include "pathmodel.hpp"
#include "pathparser.hpp"
namespace pp {
#define DECL(X) Base* make_##X( int);
DECL(UTF8) DECL(UTF16LE) DECL(UTF16BE) DECL(UCS2LE) DECL(UCS2BE) DECL(UCS4LE) DECL(UCS4BE) DECL(IsoLatin)
Base* make( int src, int atm)
{
	switch (src) {case enc::UTF8: return make_UTF8( atm); case enc::UTF16LE: return make_UTF16LE( atm); case enc::UTF16BE: return make_UTF16BE( atm); case enc::UCS2LE: return make_UCS2LE( atm); case enc::UCS2BE: return make_UCS2BE( atm); case enc::UCS4LE: return make_UCS4LE( atm); case enc::UCS4BE: return make_UCS4BE( atm); default: return make_IsoLatin( atm);}
}
}
namespace vf {
const Check check={"C16",300000,8000000,"distinct (sets of expression texts, document, character sets) triples with at least one element selected or one text refused",0,60};
using pp::Call; using pm::Expr; using pm::Step; typedef std::u32string U;
void init() {}

// ---- reference grammar on characters
struct Parse
{
	const U& t; size_t i; std::vector<Call> calls; long err, errlo;	// err: index of the offending character or -1
	explicit Parse( const U& t_) :t(t_),i(0),err(-1),errlo(-1) {}
	char32_t at() const {return i<t.size()?t[i]:0;}
	static bool sp( char32_t c) {return c==' '||c=='\t'||c=='\r';}
	void ws() {while (sp( at())) ++i;}
	static bool idc( char32_t c)
	{
		if (c==0) return false; if (c>127) return true; if (c<32) return c==5; // (control character of no class)
		return !strchr( " &<=>/!?'\"[]*~(){}@,;", (int)c);
	}
	bool bad() {err=i; if (errlo<0) errlo=i; return false;}
	U ident() {U r; while (idc( at())) r+=t[i++]; return r;}
	bool number( int& n) {size_t s=i; long v=0; while (at()>='0'&&at()<='9') {if (v<1000000000) v=v*10+(at()-'0'); ++i;} if (i==s) return bad(); if (i-s>8) {errlo=s; return bad();} n=(int)v; return true;}
	bool list( std::vector<U>& l)
	{
		for (;;) {++i; ws(); if (!idc( at())) return bad(); l.push_back( ident()); ws(); if (at()!=',') break;}
		if (at()!='}') return bad();
		++i; return true;
	}
	// what may follow
	enum {Start=1,AfterSlash=2,AfterAt=4,AfterTag=8,AfterAttr=16,End=32,AfterCond=64};
	bool parse()
	{
		for (size_t k=0;k+1<t.size();++k) if (t[k]==':'&&t[k+1]==':') {i=k; return bad();}
		unsigned st=Start;
		while (at())
		{
			char32_t c=at();
			if (c=='@') {if (!(st&(Start|AfterSlash|AfterTag|AfterCond))) return bad(); ++i; st=AfterAt;}
			else if (c=='/') {if (!(st&(Start|AfterCond|AfterTag))) return bad(); ++i; if (at()=='/') {++i; calls.push_back( Call( Call::Follow));} st=AfterSlash;}
			else if (c=='[')
			{
				if (!(st&(Start|AfterSlash|AfterTag|AfterCond))) return bad();
				++i; ws();
				if (at()=='@')
				{
					++i; ws(); if (!idc( at())) return bad(); Call k( Call::If); k.name=ident(); ws(); if (at()!='=') return bad(); ++i; ws();
					if (at()=='"'||at()=='\'') {char32_t q=at(); ++i; while (at() && at()!=q) k.value+=t[i++]; if (at()) ++i;}
					else if (idc( at())) k.value=ident(); else return bad();
					ws(); if (at()!=']') return bad(); ++i; calls.push_back( k);
				}
				else
				{
					Call k( Call::Index); if (!idc( at())) return bad(); if (!number( k.a)) return false; ws();
					if (at()==',') {++i; ws(); if (at()==']') k.kind=Call::From; else {k.kind=Call::Range; if (!idc( at())) return bad(); if (!number( k.b)) return false; ws();}}
					if (at()!=']') return bad(); ++i; calls.push_back( k);
				}
				st=AfterCond;
			}
			else if (c=='(') {if (!(st&(Start|AfterSlash|AfterTag|AfterCond))) return bad(); ++i; ws(); if (at()!=')') return bad(); ++i; calls.push_back( Call( Call::Content)); st=End;}
			else if (c=='~') {if (!(st&(Start|AfterTag|AfterCond))) return bad(); ++i; calls.push_back( Call( Call::Close)); st=End;}
			else if (c=='*'||c=='{'||idc( c))
			{
				if (!(st&(Start|AfterSlash|AfterAt))) return bad();
				Call k( st==AfterAt?Call::Attr:Call::Tag);
				if (c=='*') {++i; k.any=true;} else if (c=='{') {if (!list( k.alt)) return false;} else k.name=ident();
				calls.push_back( k); st=st==AfterAt?AfterAttr:AfterTag;
			}
			else return bad();
			ws();
		}
		return true;
	}
};
// ---- text form of an expression
struct Writer
{
	Rng& r; U o; unsigned names;
	void sp() {if (r.chance(1,5)) {unsigned n=1+r.below(3); while (n--) o+=(char32_t)" \t\r"[ r.below(3)];}}
	void name( Expr& x, size_t k)	// name or alternatives
	{
		const Step& s=x.steps[k];
		if (s.any) {o+=U'*'; sp(); return;}
		if (k<x.alt.size() && !x.alt[k].empty())
		{
			o+=U'{'; for (size_t i=0;i<x.alt[k].size();++i) {if (i) o+=U','; sp(); o+=x.alt[k][i]; sp();} o+=U'}'; sp(); return;
		}
		o+=s.name; sp();
	}
	static bool plain( const U& v) {if (v.empty()) return false; for (char32_t c:v) if (!Parse::idc( c)) return false; return true;}
	void val( const U& v)
	{
		if (plain( v) && r.chance(1,2)) {o+=v; sp(); return;}
		char32_t q=r.chance(1,2)?'"':'\''; if (v.find( q)!=U::npos) q=q=='"'?'\'':'"';
		o+=q; for (size_t i=0;i<v.size();++i) {char32_t c=v[i]; if (c==q || r.chance(1,15)) {char b[32]; snprintf( b, sizeof(b), r.chance(1,2)?"&#%u;":"&#x%x;", (unsigned)c); o+=enc::asc( b);} else o+=c;} o+=q; sp();
	}
	void range( const Expr& x)
	{
		o+=U'['; sp(); char b[64]; snprintf( b, sizeof(b), r.chance(1,8)?"%08d":"%d", x.r1); o+=enc::asc( b); sp();
		if (x.rangeKind!=1) {o+=U','; sp(); if (x.rangeKind==2) {o+=enc::asc( vf::num( x.r2)); sp();}}
		o+=U']'; sp();
	}
	// false if the expression has no text form
	bool write( Expr& x)
	{
		o.clear(); unsigned st=Parse::Start; bool ranged=x.rangeKind==0; if (x.rangeKind>3) return false;
		// index ranges may be written at any place where a condition is allowed
		for (size_t k=0;k<x.steps.size();++k)
		{
			const Step& s=x.steps[k]; bool slash=false; if (s.op==Step::Cond && (s.any||s.anyval)) return false; if (s.op==Step::Close && s.follow) return false;
			if (!ranged && r.chance(1,3)) {range( x); ranged=true; st=Parse::AfterCond;}
			if (s.follow) {o+=U"//"; slash=true;} else if ((s.op==Step::Tag && st!=Parse::Start) || (s.op!=Step::Close && r.chance(1,2))) {o+=U'/'; slash=true;}
			if (slash) sp();
			if (slash && s.op!=Step::Tag && !ranged && r.chance(1,2)) {range( x); ranged=true;}
			switch (s.op)
			{
				case Step::Tag: name( x, k); st=Parse::AfterTag; break;
				case Step::Attr: if (!ranged) {range( x); ranged=true;} o+=U'@'; sp(); name( x, k); break;
				case Step::Cond: o+=U'['; sp(); o+=U'@'; sp(); o+=s.name; sp(); o+=U'='; sp(); val( s.value); o+=U']'; sp(); st=Parse::AfterCond; break;
				default: if (!ranged) {range( x); ranged=true;} o+=U'~'; sp();
			}
		}
		if (x.out==Expr::Content)
		{
			if (!ranged && r.chance(1,2)) {range( x); ranged=true;}
			if (x.outFollow) {o+=U"//"; sp();} else if (r.chance(1,3)) {o+=U'/'; sp();}
			if (!ranged) {range( x); ranged=true;}
			o+=U'('; sp(); o+=U')'; sp();
		}
		else if (x.out==Expr::Trigger && !x.steps.empty() && x.steps.back().op!=Step::Close && r.chance(1,10)) {o+=U'/'; sp();}
		return ranged && !o.empty() && !Parse::sp( o[0]);
	}
};
static void expand( const Expr& x, std::vector<Expr>& out)
{
	std::vector<Expr> l( 1, x);
	for (size_t k=0;k<x.alt.size() && k<x.steps.size();++k) if (!x.alt[k].empty())
	{
		std::vector<Expr> n; for (auto& e:l) for (auto& a:x.alt[k]) {Expr y( e); y.steps[k].name=a; n.push_back( y);} l.swap( n);
	}
	out.insert( out.end(), l.begin(), l.end());
}
static U mutate( Rng& r, U t)
{
	static const U al=U"/@*{}[]()~,=;:'\"0123456789abk-.& \t\r\n<>!?#_\u00e9\u20ac\U0001D11E\u3a3a\x01\x05\x7f";
	unsigned n=1+r.below(3);
	while (n--)
	{
		size_t p=r.below( t.size()+1); 
		switch (r.below(6))
		{
			case 0: t.insert( p, 1, al[ r.below( al.size())]); break;
			case 1: if (p<t.size()) t.erase( p, 1); break;
			case 2: if (p<t.size()) t[p]=al[ r.below( al.size())]; break;
			case 3: t.resize( p); break;
			case 4: {size_t l=r.below( 6); if (p<t.size()) t.insert( r.below( t.size()+1), t.substr( p, l)); break;}
			default: if (p+1<t.size()) std::swap( t[p], t[p+1]);
		}
	}
	return t;
}
static U encodable( const U& t, int id) {U o; for (char32_t c:t) o+=enc::rep( id, c)?c:U'q'; return o;}
// expressions of many steps, with very long identifiers and values
static void longText( Rng& r, int src, int atm)
{
	typedef pm::XB XB; static const unsigned lim[]={255,256,257,1023,1024,1025,32767,32768,65535,65536,65537}; unsigned n=(r.chance(3,4)?lim[ r.below(11)]:65000+r.below( 6000))+r.below(2), kind=r.below(4); const U a=U"ab"; U t, key( n, U'k'); key[ r.below( n)]=U'x';
	std::unique_ptr<pp::Base> p( pp::make( src, atm)); std::vector<Call> calls, one; {Call c( Call::Follow); one.push_back( c); Call g( Call::Tag); g.name=U"z"; one.push_back( g);}
	if (p->add( 1, enc::enc( U"//z", src))!=0) fail( "'//z' refused"); p->define( 1, one);
	switch (kind)
	{
		case 0: for (unsigned i=0;i<n;++i) {if (i) t+=U'/'; t+=a[i%2]; Call c( Call::Tag); c.name=U( 1, a[i%2]); calls.push_back( c);} break;
		case 1: {t=key; Call c( Call::Tag); c.name=key; calls.push_back( c); break;}
		case 2: {t=U"a[@k='"+key+U"']"; Call c( Call::Tag); c.name=U"a"; calls.push_back( c); Call d( Call::If); d.name=U"k"; d.value=key; calls.push_back( d); break;}
		default: {t=U"a@"+key; Call c( Call::Tag); c.name=U"a"; calls.push_back( c); Call d( Call::Attr); d.name=key; calls.push_back( d);}
	}
	note( std::string("long expression, kind ")+num(kind)+", "+num(n)+" steps or characters, source "+enc::name(src)+" automaton "+enc::name(atm)); maxv( "characters of an expression", t.size()); count( kind?"expressions with a long identifier":"expressions of many steps");
	if (r.chance(1,3))
	{
		U b=t; b.insert( b.end()-(kind==2?1:0), U'!'); size_t at=b.size()-1-(kind==2?1:0); std::vector<size_t> off=enc::offsets( b, src); int rt=p->add( 2, enc::enc( b, src)); if (rt!=(int)off[at]+1) fail( "refused at position "+num(rt)+", expected "+num( off[at]+1)); count( "expressions refused");
	}
	int rt=p->add( 3, enc::enc( t, src)); if (rt!=0) fail( "refused at position "+num(rt)); p->define( 3, calls); count( "expressions accepted");
	for (int parsed=1;parsed>=0;--parsed)
	{
		p->start( parsed!=0); std::vector<int> got; uint64_t steps=0; auto push=[&]( int ty, const U& k, unsigned w) {got.clear(); p->push( ty, enc::prn( k, atm), got); ++steps; if (w?(got.size()!=1||got[0]!=(int)w):!got.empty()) fail( "element "+num(steps)+" selected by "+(parsed?"the expression":"the calls")+" as"+pm::show( got)+", expected "+num( w));};
		switch (kind)
		{
			case 0: for (unsigned i=0;i<n;++i) {if (i+3>n||i%20000==7) {push( XB::OpenTag, U"z", 1); push( XB::CloseTagIm, U"", 0);} push( XB::OpenTag, U( 1, a[i%2]), i+1==n?3:0);} push( XB::OpenTag, U"a", 0); push( XB::CloseTagIm, U"", 0); break;
			case 1: push( XB::OpenTag, key, 3); push( XB::OpenTag, U"z", 1); break;
			case 2: push( XB::OpenTag, U"a", 0); push( XB::TagAttribName, U"k", 0); push( XB::TagAttribValue, key, 3); break;
			default: push( XB::OpenTag, U"a", 0); push( XB::TagAttribName, key, 0); push( XB::TagAttribValue, U"v", 3);
		}
		if (kind)
		{
			// not selected: names and values that differ at one character only, or in the length
			U o=key; size_t at=r.chance(1,2)?n-1:r.below( n); switch (r.below(3)) {case 0: o[at]=o[at]==U'x'?U'k':U'x'; break; case 1: o.resize( n-1); break; default: o+=U'k';}
			p->start( parsed!=0);
			switch (kind) {case 1: push( XB::OpenTag, o, 0); break; case 2: push( XB::OpenTag, U"a", 0); push( XB::TagAttribName, U"k", 0); push( XB::TagAttribValue, o, 0); break; default: push( XB::OpenTag, U"a", 0); push( XB::TagAttribName, o, 0); push( XB::TagAttribValue, U"v", 0);}
		}
	}
	distinct( mix( n, kind*256+src*16+atm));
}
void run( uint64_t idx, Rng& r)
{
	if (idx%1009==13) {longText( r, r.chance(1,2)?(int)enc::UTF8:(int)r.below( enc::NofEnc), r.chance(1,2)?(int)enc::UTF8:(int)r.below( enc::NofEnc)); return;}
	int src=r.chance(1,3)?(int)enc::UTF8:(int)r.below( enc::NofEnc), atm=r.chance(1,3)?(int)enc::UTF8:(int)r.below( enc::NofEnc);
	unsigned names=r.chance(1,3)?2+r.below(2):r.chance(1,2)?5:r.chance(1,2)?10:(unsigned)pm::vocab().names.size();
	pm::DocGen g( r, names, 1+r.below(6), 10+r.below(100)); g.generate();
	pm::ExprOpt o; o.maxsteps=1+r.below(4); o.maxidx=99999999; unsigned n=1+r.below(5); int tb=r.chance(1,8)?pm::typeBase( r):0;
	std::unique_ptr<pp::Base> p( pp::make( src, atm)); Writer w={r,U(),names};
	std::vector<std::vector<int> > want( g.d.ev.size()); bool model=true; std::string head=std::string("source ")+enc::name(src)+" automaton "+enc::name(atm)+"\n"+pm::show( g.d)+"\n"; unsigned refused=0; note( head.substr( 0, 4000));
	for (unsigned i=0;i<n;++i)
	{
		Expr x; for (unsigned tries=0;;++tries) {x=r.chance(2,3)?pm::genFrom( r, g.d, tb+1+i, o):pm::genExpr( r, names, tb+1+i, o); x.alt.clear(); if (r.chance(1,4)) for (auto& s:x.steps) {x.alt.push_back( std::vector<U>()); if (!s.any && (s.op==Step::Tag||s.op==Step::Attr) && r.chance(1,2)) {unsigned k=1+r.below(3); for (unsigned j=0;j<k;++j) x.alt.back().push_back( s.op==Step::Tag?pm::vocab().names[ r.below( names)]:r.pick( pm::vocab().atts)); if (r.chance(2,3)) x.alt.back()[ r.below(k)]=s.name;}} if (!x.steps.empty() && w.write( x)) break; if (tries>60) {x=Expr(); x.type=tb+1+i; x.out=Expr::Content; x.outFollow=true; w.write( x); break;}}
		U t=w.o; bool mut=r.chance(1,3); if (mut) t=mutate( r, t);
		U e=encodable( t, src); bool same=e==t && !mut; t=e; if (!t.empty() && Parse::sp( t[0])) t.insert( t.begin(), U'/'), same=false; if (t.empty()) {t=U"a"; same=false;}
		std::string b=enc::enc( t, src); Parse ref( t); bool ok=ref.parse();
		if (!ok && same) {printf( "internal: generated expression '%s' not in the grammar\n", show( enc::u8( t)).c_str()); abort();}
		std::string line=std::string(ok?"accept ":"refuse ")+show( enc::u8( t))+(same?"  = "+pm::show( x):std::string())+"\n"; head+=line; note( head.substr( 0, 6000));
		int rt=p->add( tb+1+i, b);
		if (ok)
		{
			if (rt!=0) fail( "expression '"+show( enc::u8( t))+"' refused at position "+num(rt));
			if (ref.calls.empty()) model=false;
			bool emptypath=true; for (auto& c:ref.calls) if (c.kind!=Call::Follow && c.kind!=Call::Index && c.kind!=Call::Range && c.kind!=Call::From) emptypath=false;
			if (emptypath) {count( "cases with an empty path skipped"); return;}
			p->define( tb+1+i, ref.calls); count( same?"expressions accepted":"mutated expressions accepted");
			if (same && model)
			{
				std::vector<Expr> xs; expand( x, xs); for (auto& y:xs) {std::vector<uint64_t> h=pm::evaluate( g.d, y); for (size_t k=0;k<h.size();++k) {if (h[k]>100000) {count( "cases with too many selections skipped"); return;} want[k].insert( want[k].end(), h[k], y.type);}}
			}
			else model=false;
			uint64_t shape=0; for (auto& c:ref.calls) shape=mix( shape, c.kind*8+c.any*4+(c.alt.size()>2?2:c.alt.size())); seen( "shapes of expressions", shape);
		}
		else
		{
			std::vector<size_t> off=enc::offsets( t, src); ++refused; count( "expressions refused");
			if (rt==0) fail( "invalid expression '"+show( enc::u8( t))+"' accepted");
			if (rt<(long)off[ref.errlo]+1 || rt>(long)off[ref.err]+1) fail( "expression '"+show( enc::u8( t))+"' refused at position "+num(rt)+", expected "+num(off[ref.err]+1));
			seen( "offending characters and contexts", mix( ref.err<(long)t.size()?t[ref.err]:0, ref.err>0?t[ref.err-1]:0));
		}
	}
	if (idx<40&&idx%9==0&&head.size()<1000) sample( head);
	uint64_t hits=0; std::vector<std::vector<int> > got( g.d.ev.size());
	p->start( true); for (size_t k=0;k<g.d.ev.size();++k) {p->push( g.d.ev[k].type, enc::prn( g.d.ev[k].key, atm), got[k]); hits+=got[k].size();}
	p->start( false);
	for (size_t k=0;k<g.d.ev.size();++k)
	{
		std::vector<int> c; p->push( g.d.ev[k].type, enc::prn( g.d.ev[k].key, atm), c);
		std::string at="element "+num(k)+" "+pm::XB::getElementTypeName( (pm::XB::ElementType)g.d.ev[k].type)+" '"+show( enc::u8( g.d.ev[k].key))+"' selected by the expressions as"+pm::show( got[k])+", ";
		if (c!=got[k]) fail( at+"by the calls as"+pm::show( c));
		std::sort( want[k].begin(), want[k].end());
		if (model && want[k]!=got[k]) fail( at+"expected"+pm::show( want[k]));
	}
	count( "selections", hits); if (model) count( "cases compared with the model too"); seen( "pairs of character sets", src*16+atm);
	if (hits||refused) distinct( hash( head));
}
}
