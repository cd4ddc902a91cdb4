// C22: character references and entities resolve to exactly the character they name
#include "gendoc.hpp"
#include "cs.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/cstringiterator.hpp"
namespace vf {
const Check check={"C22",400000,8000000,"distinct documents of references, malformed references and text (by source, character sets and chunking)",0,30};
void init() { modes::detect( false); }
struct Piece { doc::U raw, val; bool undef; };
static void lit( doc::U& u, const char* s) {while (*s) u+=(char32_t)(unsigned char)*s++;}
static uint32_t value( Rng& r, uint64_t idx)
{
	static const uint32_t sp[]={0,1,8,9,10,13,31,32,34,38,39,60,62,0x7E,0x7F,0x80,0x81,0x9F,0xA0,0xFF,0x100,0x17F,0x7FF,0x800,0x20AC,0xD7FF,0xD800,0xDBFF,0xE000,0xFFFD,0xFFFE,0xFFFF,0x10000,0x10FFFF,0x110000,0x1FFFFF,0x200000,0x3FFFFFF,0x4000000,0x7FFFFFFE,0x7FFFFFFF,0x80000000u,0xFFFFFFFEu,0xFFFFFFFFu};
	uint32_t v;
	switch (r.below(6))
	{
		case 0: v=sp[r.below(sizeof(sp)/sizeof(*sp))]; break;
		case 1: v=(uint32_t)r.u64(); break;
		case 2: v=(uint32_t)(idx*7+r.below(7))%0x110000; break;	// sweep
		case 3: v=(uint32_t)r.below(0x300); break;
		case 4: v=1u<<r.below(32); v+=(uint32_t)r.below(3)-1; break;
		default: v=(uint32_t)r.below(0x110000);
	}
	if (v>=0xDC00 && v<=0xDFFF) v+=0x2000;	// lone low surrogates: see DESIGN.md
	return v;
}
static Piece numeric( Rng& r, uint32_t v)
{
	Piece p; p.undef=false; char t[64], d[32]; unsigned f=r.below(4); bool hex=f>=2;
	if (f<2) snprintf( d, sizeof(d), "%u", v); else if (f==2) snprintf( d, sizeof(d), "%x", v); else {snprintf( d, sizeof(d), "%x", v); for (char* c=d;*c;++c) if (*c>='a' && r.chance(1,2)) *c-=32;}
	size_t z=r.chance(1,3)?r.below( 16-strlen(d)):0; if (r.chance(1,10)) z=15-strlen(d);
	snprintf( t, sizeof(t), "&#%s%s%s;", hex?"x":"", std::string(z,'0').c_str(), d);
	lit( p.raw, t); p.val=doc::U(1,(char32_t)v); return p;
}
static Piece malformed( Rng& r)
{
	static const char* m[]={"&","& ","&#","&#x","&#;","&#x;","&#xg;","&#g;","&#1g;","&#12 ;","&#x1G;","&#X41;","&#-1;","&lt","&lt ","&am p;","&my-ent;","&a!;","&abcdefghijklmnopq;","&#4294967296;","&#99999999999;","&#x100000000;","&#xFFFFFFFFF;","&#1","&#x1F","&amp","&#0000000000000000000065;","&#x00000000000000041;","&&","&#&#65;","&x","&=","&\xC3","&'x","&\"x","&]","&#x 41;","&#xx41;","&#1x;","&a&b"};
	Piece p; p.undef=false; std::string s=m[r.below(sizeof(m)/sizeof(*m))];
	if (r.chance(1,6))	// names longer than the longest one possible, numbers with more digits than accepted
	{
		size_t n=16+r.below(4); if (r.chance(1,2)) s="&abcdefghijklmnopqrstuvwxyz"; else {s=r.chance(1,2)?"&#x00000000000000000000000":"&#00000000000000000000000"; n+=s[2]=='x'?2:1;} s.resize( n+1); s+=";";
	}
	if (s=="&\xC3") {p.raw=U"&\u00e9"; p.val=p.raw; return p;}
	if (s=="&#&#65;") {p.raw=enc::asc(s); p.val=U"&#A"; return p;}
	lit( p.raw, s.c_str()); p.val=p.raw; return p;
}
// tokens of tables of the user with numeric references: XMLScanner::parseStaticToken
template <class In, class Out> static void staticToken( Rng& r)
{
	typedef textwolf::XMLScanner<textwolf::CStringIterator,In,Out,std::string> S; const int page=1;
	doc::U u; static const std::u32string set=U"ab-_:.19%x&&&#;#;<>=/!? \n\t'\"[]"; 
	for (unsigned n=r.below(12);n;--n) switch (r.below(5))
	{
		case 0: {uint32_t v=value( r, r.below(100000)); if (v>=0xD800&&v<=0xDFFF) v=0x41; Piece p=numeric( r, v>0x7FFFFFFF?0x42:v); u+=p.raw; break;}
		case 1: u+=malformed( r).raw; break;
		case 2: u+=U"name"; break;
		case 3: {char32_t x=r.chance(1,2)?0xE9:0x20AC; if (enc::rep( cs::Info<In>::id, x, page)) u+=x; break;}
		default: u+=r.pickc( set);
	}
	for (auto x:u) if (!enc::rep( cs::Info<In>::id, x, page)) return;
	doc::U expect; size_t i=0;
	auto isTok=[]( char32_t c) {return c>=128 || c==5 || c=='-' || (c>=33 && !strchr( "&<=>/!?'\"[]", (int)c));};
	for (;i<u.size();)
	{
		if (u[i]=='&')
		{
			size_t k=i+1; uint64_t v=0; bool ok=false;
			if (k<u.size() && u[k]=='#')
			{
				++k; unsigned base=10; if (k<u.size() && u[k]=='x') {base=16; ++k;}
				for (;k<u.size();++k) {char32_t c=u[k]; if (c==';') {ok=true; break;} unsigned d=c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:99; if (d>=base) break; v=v*base+d; if (v>=0xFFFFFFFFull) break;}
			}
			if (ok && v) {expect+=(char32_t)v; i=k+1;} else {expect+=U'&'; ++i;}
		}
		else if (isTok( u[i])) expect+=u[i++];
		else break;
	}
	for (auto x:expect) if ((x>=0xD800 && x<=0xDFFF)||x>0x7FFFFFFF) return;
	std::string b=enc::enc( u, cs::Info<In>::id, page), got="left over";
	note( "parseStaticToken of "+show( enc::u8( u), 300)+" "+enc::name( cs::Info<In>::id)+" to "+enc::name( cs::Info<Out>::id));
	textwolf::TextScanner<textwolf::CStringIterator,In> ts( cs::Info<In>::make( page), textwolf::CStringIterator( b.data(), b.size()));
	if (!S::parseStaticToken( typename S::IsTagCharMap(), ts, got)) fail( "static token not parsed");
	if (got!=enc::prn( expect, cs::Info<Out>::id)) fail( "static token '"+show( got, 300)+"', expected '"+show( enc::prn( expect, cs::Info<Out>::id), 300)+"'");
	count( "static tokens parsed");
}
void run( uint64_t idx, Rng& r)
{
	switch (idx%24) {case 3: staticToken<textwolf::charset::UTF8,textwolf::charset::UTF8>( r); return; case 9: staticToken<textwolf::charset::UTF16LE,textwolf::charset::UTF8>( r); return; case 15: staticToken<textwolf::charset::IsoLatin,textwolf::charset::UTF16BE>( r); return; case 21: staticToken<textwolf::charset::UCS4BE,textwolf::charset::IsoLatin>( r); return;}
	static const doc::Ents ents=[](){doc::Ents e=gd::ents(); e.push_back({"a1_.x:y",0x263A}); e.push_back({"big",0x1F600}); e.push_back({"amplify",0x41}); e.push_back({"l",0x42}); e.push_back({"quote",0x43}); e.push_back({"gt2",0x44}); e.push_back({"nbspx",0x45}); e.push_back({"ap",0x46}); e.push_back({"apo",0x47});e.push_back({"n",0x48});e.push_back({"q",0x49});e.push_back({"a",0x4A}); return e;}();
	static const char* pn[]={"lt","gt","amp","apos","quot","nbsp"}; static const char32_t pv[]={'<','>','&','\'','"',' '};
	gd::Case c; gd::pickEnc( r, c); bool useents=r.chance(2,3);
	doc::U val, raw; char32_t q= r.chance(1,2)?'"':'\''; bool attr=r.chance(1,2); bool undef=false;
	unsigned n=1+r.below(6); bool cr=false;
	for (unsigned i=0;i<n && !undef;++i)
	{
		Piece p; p.undef=false;
		switch (r.below(10))
		{
			case 0: case 1: case 2: p=numeric( r, value( r, idx)); seen( "character values referenced", p.val[0]); count( "numeric references"); break;
			case 3: {unsigned k=r.below(6); p.raw=U"&"+enc::asc( pn[k])+U";"; p.val=doc::U( 1, pv[k]); count( "predefined entities"); break;}
			case 4: if (useents) {auto& e=r.pick( ents); p.raw=U"&"+enc::asc( e.first)+U";"; p.val=doc::U( 1, (char32_t)e.second); count( "entities of the user map");} break;
			case 5: case 6: p=malformed( r); for (auto x:p.raw) if (x==q && attr) {p.raw=p.val=U"&";}
				// a following piece must not complete it
				{static const std::u32string f=U" <%,\n"; (void)f; char32_t x=r.chance(1,2)?U' ':U'!'; p.raw+=x; p.val+=x; count( "sequences that are no references");} break;
			case 7: {doc::U t; unsigned k=1+r.below(5); for (unsigned j=0;j<k;++j) {static const std::u32string a=U"abx19; #=>!?-[]'\"/%"; char32_t x=r.pickc(a); if (x==q) x='k'; t+=x;} p.raw=p.val=t; break;}
			case 8: if (r.chance(1,3)) {p.raw=U"\r"; p.val=U"\n";} else {char32_t x=0xE9; if (enc::rep( c.in, x, c.page)) p.raw=p.val=doc::U(1,x);} break;
			default:
				if (r.chance(1,3))
				{
					static const char* u[]={"nosuch","lT","LT","Amp","ampx","quo","quott","apo9","apox","nbs","eacut","eacutee","ltt","x2","A","g","gtt","nbspp","amp1","a#b"};
					p.raw=U"&"+enc::asc( u[r.below(sizeof(u)/sizeof(*u))])+U";"; p.undef=true; 
				}
		}
		if (p.raw.empty()) continue;
		// CR followed by a raw LF would be one line end
		if (cr && p.raw[0]=='\n') continue;
		cr = p.raw==U"\r";
		raw+=p.raw; val+=p.val; undef|=p.undef;
	}
	if (!attr) {bool ok=false; for (auto x:raw) if (x!='\r'&&x!=' ') ok=true; if (!ok) {raw+=U"k"; val+=U"k";}}
	// '<' does not occur in raw text; the attribute text must not contain its quote (checked above)
	if (attr && raw.find(q)!=doc::U::npos) {count( "cases skipped"); return;}
	for (auto x:raw) if (x>127 && !enc::rep( c.in, x, c.page)) {count( "cases skipped"); return;}
	doc::U s=U"<t"; doc::Evs ev; ev.push_back( doc::Ev( doc::OpenTag, U"t", 0, 0));
	if (attr) {s+=U" a="; s+=q; s+=raw; s+=q; s+=U"/>"; ev.push_back( doc::Ev( doc::TagAttribName, U"a", 0, 0)); ev.push_back( doc::Ev( doc::TagAttribValue, val, 0, 0)); ev.push_back( doc::Ev( doc::CloseTagIm, U"", 0, 0));}
	else {s+=U">"; s+=raw; s+=U"</t>"; ev.push_back( doc::Ev( doc::Content, val, 0, 0)); ev.push_back( doc::Ev( doc::CloseTag, U"t", 0, 0));}
	ev.push_back( doc::Ev( doc::Exit, U"", 0, 0));
	if (undef) {ev.erase( ev.begin()+(attr?2:1), ev.end()); ev.push_back( doc::Ev( doc::ErrorOccurred, U"", 0, 0)); ev.back().err=doc::ErrUndefinedCharacterEntity; count( "references to unknown names");}
	c.src=s; c.bytes=enc::enc( s, c.in, c.page); c.opt.ents=useents?&ents:0;
	scan::Req rq; rq.in=c.in; rq.inPage=c.page; rq.ents=c.opt.ents;
	for (int k=0;k<2;++k)
	{
		rq.out=k==0?enc::UTF8:c.out;
		if (k==1) {rq.src=r.chance(1,2)?scan::PUTINPUT:scan::SETSOURCE; if (r.chance(1,3)) for (size_t i=1;i<c.bytes.size();++i) rq.cuts.push_back(i); else {size_t i=0; for (;;) {i+=1+r.below(12); if (i>=c.bytes.size()) break; rq.cuts.push_back(i);}}}
		note( gd::describe( c)+"\noutput "+enc::name(rq.out)+" "+scan::srcName( rq.src));
		scan::Res x=scan::run( rq, c.bytes);
		std::string d=scan::compare( x, ev, rq.out);
		if (!d.empty()) fail( d);
	}
	count( "documents"); distinct( hash( c.bytes)+c.out*31); seen( "pairs of character sets", (c.in*10+c.page)*16+c.out);
	if (idx<8) sample( gd::describe(c));
}
}
