// C07: arbitrary input never causes undefined behaviour or endless scanning
// Also built without sanitizers and run with valgrind (-DVG) for the use of uninitialised data
#include "gendoc.hpp"
#include "cs.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/xmlpathselect.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
namespace c07 {
// counts every access of the scanner to the input
struct LIt
{
	const char* p; size_t n, pos; size_t* acc; size_t lim;
	LIt() :p(0),n(0),pos(0),acc(0),lim(0) {}
	LIt( const char* p_, size_t n_, size_t* a, size_t l) :p(p_),n(n_),pos(0),acc(a),lim(l) {}
	void tick() const {if (acc && ++*acc>lim) vf::fail( "more than "+vf::num(lim)+" accesses to an input of "+vf::num(n)+" bytes");}
	char operator*() const {tick(); return pos<n?p[pos]:0;}
	LIt& operator++() {tick(); ++pos; return *this;}
	LIt operator++(int) {LIt t( *this); tick(); ++pos; return t;}
	size_t operator-( const LIt& o) const {return pos-o.pos;}
};
}
namespace textwolf {
template <> struct Traits<c07::LIt> { static inline std::size_t getPosition( const c07::LIt& s, const c07::LIt& i) {return i.pos-s.pos;} };
}
namespace vf {
#ifdef VG
const Check check={"C07",480,6000,"hostile inputs executed under valgrind memcheck",8,3000};
#else
const Check check={"C07",24000,1200000,"distinct hostile inputs (input x character set x configuration) executed under the sanitizers",0,60};
#endif
using namespace textwolf;
void init() {modes::detect( false);}
// an exactly sized heap block, so that any access outside is seen
struct Exact
{
	char* p; size_t n;
	explicit Exact( const std::string& s) :p((char*)malloc( s.size()?s.size():1)),n(s.size()) {if (n) memcpy( p, s.data(), n);}
	~Exact() {free( p);}
};
// use the data, so that the checker of uninitialised data sees a branch depending on it
static void use( const std::string& s) {uint64_t h=hash( s); if (h==0x123456789ull) count( "impossible"); }
static void use( uint64_t x) {if (mix( x, 7)==0x123456789ull) count( "impossible");}

static std::string randomBytes( Rng& r, size_t n)
{
	std::string s; static const char t[]="<>&/-!?'\"[]= \r\n\t;#xa1DOCTYPECDATAxml\0\0\0";
	unsigned mode=r.below(4);
	for (size_t i=0;i<n;++i)
	{
		switch (mode)
		{
			case 0: s+=(char)r.below(256); break;
			case 1: s+=t[ r.below( sizeof(t)-1)]; break;
			case 2: s+=r.chance(1,4)?(char)r.below(256):t[ r.below( sizeof(t)-1)]; break;
			default: {static const unsigned char b[]={0,0,0,0x80,0xBF,0xC2,0xE0,0xED,0xEF,0xF0,0xF4,0xF8,0xFC,0xFE,0xFF,0xD8,0xDC,0xDF,0xD9,'<','>','&','#','x','a','"','=','\r','\n'}; s+=(char)b[ r.below( sizeof(b))];}
		}
	}
	return s;
}
static doc::U pathological( Rng& r)
{
	doc::U u; size_t n=1+r.below( r.chance(1,8)?20000:400);
	auto rep=[&]( const char* s, size_t k) {doc::U a=enc::asc( s); doc::U x; for (size_t i=0;i<k;++i) x+=a; return x;};
	switch (r.below(18))
	{
		case 16: case 17:	// lengths around the limits of references and short tokens
		{
			doc::U x=U"<a>"; for (unsigned k=1+r.below(6);k;--k) {size_t l=r.below(40); switch (r.below(4)) {case 0: x+=U"&"+doc::U( l, 'n'); break; case 1: x+=U"&#"+doc::U( l, '0'+r.below(10)); break; case 2: x+=U"&#x"+doc::U( l, r.chance(1,2)?'0':'f'); break; default: x+=U"&ampersand"+doc::U( l, 'd');} if (!r.chance(1,4)) x+=U";";} return x+(r.chance(1,2)?U"</a>":U"");
		}
		case 0: return U"<"+rep( "n", n)+(r.chance(1,2)?U">":U"");
		case 1: return U"<a>"+rep( "&", n)+U"</a>";
		case 2: return U"<a>&"+rep( "x", n)+(r.chance(1,2)?U";</a>":U"");
		case 3: return U"<a>&#"+rep( "9", n)+U";</a>";
		case 4: return U"<a>&#x"+rep( "F", n)+U";</a>";
		case 5: return rep( "<a>", n);
		case 6: return rep( "</a>", n);
		case 7: return U"<a b='"+rep( "&amp;", n)+(r.chance(1,2)?U"'/>":U"");
		case 8: return U"<!DOCTYPE "+rep( "a ", n)+(r.chance(1,2)?U">":U"");
		case 9: return U"<!DOCTYPE a ["+rep( "[", n)+(r.chance(1,2)?U"]>":U"");
		case 10: return U"<a><![CDATA["+rep( "]", n)+(r.chance(1,2)?U">":U"");
		case 11: return U"<a><!--"+rep( "-", n)+(r.chance(1,2)?U">":U"");
		case 12: return U"<?xml"+rep( " a='b'", n)+(r.chance(1,2)?U"?>":U"");
		case 13: return U"<?"+rep( "?", n)+U">";
		case 14: return rep( "\r", n)+U"<a>"+rep( "\r\n", n)+U"&#13;"+rep( "\n\r", n);
		default: return U"<a>"+rep( "&#x41;", n)+rep( "<", n);
	}
}
struct Linear
{
	const std::string& b; int page; Rng& r;
	template <class CS> void go()
	{
		typedef XMLScanner<c07::LIt,CS,charset::UTF8,std::string> S;
		Exact x( b); size_t acc=0, lim=24*b.size()+2000;
		c07::LIt it( x.p, x.n, &acc, lim);
		S sc( cs::Info<CS>::make( page), it);
		size_t calls=0, lc=2*b.size()+100; unsigned extra=0;
		for (;;)
		{
			unsigned short m=(unsigned short)(r.chance(1,3)?r.below(0x10000):0xFFFF);
			typename S::ElementType t=sc.nextItem( m);
			if (++calls>lc) fail( "more elements than possible");
			use( (uint64_t)t); use( std::string( sc.getItemPtr(), sc.getItemSize())); use( sc.getTokenPosition()+sc.getPosition()*31);
			if ((unsigned)t > (unsigned)S::Exit) fail( "element type out of range");
			if (t==S::ErrorOccurred) {const char* e=0; sc.getError( &e); use( std::string(e));}
			if ((t==S::ErrorOccurred||t==S::Exit) && ++extra>4) break;
		}
		count( "input accesses counted", acc); maxv( "accesses per input byte (x100)", acc*100/(b.size()+50));
	}
};
struct Text
{
	const std::string& b; int page; Rng& r;
	template <class TS, class CS> void loop( TS& ts, CS& c)
	{
		size_t n=0, lim=b.size()+40; unsigned after=0;
		for (;;)
		{
			uint64_t v=1;
			switch (r.below(6))
			{
				case 0: v=ts.chr(); use( v); break;
				case 1: use( ts.ascii()); break;
				case 2: use( (uint64_t)ts.control()); break;
				case 3: {std::string o; ts.copychar( c, o); use( o); break;}
				case 4: {CS o2=cs::Info<CS>::make( 1+(page%9)); std::string o; ts.copychar( o2, o); use( o); break;}
				default: break;
			}
			use( ts.getPosition());
			if (ts.getPosition()>=b.size() && ++after>6) break;
			if (r.chance(1,2)) ++ts; else ts.skip();
			if (++n>lim) fail( "text scanner makes no progress");
		}
		count( "characters read", n);
	}
	template <class CS> void go()
	{
		Exact x( b); CS c=cs::Info<CS>::make( page);
		{TextScanner<SrcIterator,CS> ts( c, SrcIterator( x.p, x.n, 0)); loop( ts, c);}
		{TextScanner<CStringIterator,CS> ts( c, CStringIterator( x.p, x.n)); loop( ts, c);}
	}
};
static void hdr( const std::string& b, Rng& r)
{
	XmlHdrParser p; std::string fed; size_t pos=0; unsigned calls=0;
	for (;;)
	{
		size_t k=r.chance(1,3)?1:r.below( 40); k=std::min( k, b.size()-pos);
		{Exact x( b.substr( pos, k)); p.putInput( x.p, x.n);}
		fed+=b.substr( pos, k); pos+=k;
		bool ok=false, thrown=false;
		try {ok=p.parse();} catch (const textwolf::exception&) {thrown=true;}
		use( ok); if (p.lasterror()) use( std::string( p.lasterror())); if (p.encoding()) use( std::string( p.encoding())); use( p.charsConsumed());
		if (p.consumedData()!=fed) fail( "header parser changed the data");
		if (thrown) count( "header parser exceptions");
		if (++calls>b.size()+1000) break;
		if ((ok||thrown||p.lasterror()) && r.chance(1,2)) {if (r.chance(1,2)) break; p.clear(); fed.clear();}
		if (pos>=b.size()) break;
	}
	count( "header parser calls", calls);
}
struct Path
{
	const std::string& ex; const std::vector<std::string>& more; int page; Rng& r; const scan::Res* doc;
	template <class SC, class AC> void run()
	{
		typedef XMLPathSelectAutomatonParser<SC,AC> P;
		P p; std::vector<std::string> all( more); all.push_back( ex); unsigned ok=0;
		for (size_t i=0;i<all.size();++i)
		{
			Exact x( all[i]); int e=-1;
			try {e=p.addExpression( 1+(int)i, x.p, x.n);} catch (const textwolf::exception&) {count( "path parser exceptions"); return;}
			use( (uint64_t)e);
			if (e<0 || (size_t)e>all[i].size()+16) fail( "position of the error outside of the expression");
			if (e==0) ++ok;
		}
		count( "path expressions accepted", ok); count( "path expressions refused", all.size()-ok);
		use( p.tostring());
		XMLPathSelect<AC> sel( &p); size_t em=0, lim=0;
		for (auto& e:doc->ev)
		{
			if (e.type==XMLScannerBase::ErrorOccurred || e.type==XMLScannerBase::Exit) break;
			Exact x( e.val);
			typename XMLPathSelect<AC>::iterator it=sel.push( (XMLScannerBase::ElementType)e.type, x.p, x.n), en=sel.end();
			for (;it!=en;++it) {use( (uint64_t)*it); if (++em>3000000) fail( "the selector does not end");}
			(void)lim;
		}
		count( "path matches", em);
	}
	template <class SC> void go()
	{
		switch (r.below(3)) {case 0: run<SC,charset::UTF8>(); break; case 1: run<SC,charset::IsoLatin>(); break; default: run<SC,charset::UTF16BE>();}
	}
};
static std::string expr( Rng& r)
{
	std::string s; unsigned n=r.below(14);
	static const char* t[]={"/","//","@","a","b","abc","[","]","[@a='x']","[1]","[2,3]","[1,]","[0","=","'","\"","()","(",")","~","*","{a,b}","{","}",","," ","\t","\n","é","&","&lt;","&#x41;","&#","::",":","99999999","999999999","-","x=1","\x80","\xff","<",">",";"};
	for (unsigned i=0;i<n;++i) if (r.chance(1,12)) s+=(char)r.below(256); else s+=t[ r.below( sizeof(t)/sizeof(*t))];
	return s;
}
void run( uint64_t idx, Rng& r)
{
	gd::Case c; gd::pickEnc( r, c);
#ifdef VG
	c.out=enc::UTF8;
#endif
	std::string b; const char* kind;
	switch (r.below(6))
	{
		case 0: b=randomBytes( r, r.below( r.chance(1,10)?4000:120)); kind="random bytes"; break;
		case 1: {doc::U u=pathological( r); for (auto& x:u) if (!enc::rep( c.in, x, c.page)) x='z'; b=enc::enc( u, c.in, c.page); kind="pathological"; break;}
		default:
		{
			doc::Opt o; o.ents=r.chance(1,2)?&gd::ents():0; o.size=1+r.below(10); o.maxdepth=1+r.below(4); o.ctrl=r.chance(1,4); o.unquoted=r.chance(1,4); o.wellformed=false;
			gd::generate( r, c, o); kind="mutated documents";
			if (r.chance(2,3)) {gd::mutate( r, c.src, 1+r.below(6), c.opt.ok); c.bytes=enc::enc( c.src, c.in, c.page);}
			b=c.bytes;
			if (!b.empty()) for (unsigned k=r.below(4);k;--k)
				switch (r.below(5))
				{
					case 0: b[ r.below( b.size())]=(char)r.below(256); break;
					case 1: b.resize( 1+r.below( b.size())); break;
					case 2: b.erase( r.below( b.size()), 1+r.below(3)); if (b.empty()) b="<"; break;
					case 3: b.insert( r.below( b.size()), randomBytes( r, 1+r.below(4))); break;
					default: {size_t p=r.below( b.size()), l=1+r.below(30); b.insert( r.below( b.size()), b.substr( p, l));}
				}
		}
	}
#ifdef VG
	if (b.size()>3000) b.resize( 3000);
#endif
	std::string head=std::string(kind)+" input "+enc::name(c.in)+" page "+num(c.page)+" output "+enc::name(c.out)+" bytes "+show( b, 1500);
	note( head); count( kind); distinct( hash( b)+c.in*977+c.page*7+c.out*131); if (idx<6&&b.size()<200) sample( head); maxv( "input bytes", b.size());
	// scanner in several configurations, all read from exactly sized heap blocks
	scan::Req q; q.in=c.in; q.inPage=c.page; q.out=c.out; q.ents=r.chance(1,3)?&gd::ents():0; q.extraCalls=1+r.below(8);
	auto masks=[&]() {q.masks.clear(); if (r.chance(1,2)) {unsigned n=1+r.below(3); for (unsigned i=0;i<n;++i) q.masks.push_back( (unsigned short)r.below(0x10000));}};
	auto go=[&]( const char* what)
	{
		note( head+"\nconfiguration "+what);
		scan::Res x=scan::run( q, b);
		if (x.limit) fail( "scanner returns elements without end");
		for (auto& e:x.ev)
		{
			if (e.type<0||e.type>doc::Exit) fail( "element type out of range");
			use( e.val); use( e.tokpos*31+e.pos+e.err);
			if (e.type!=doc::ErrorOccurred && e.pos>b.size()+8) fail( "position outside of the input");
			if (q.buf==scan::STATIC && e.val.size()>q.cap && e.type!=doc::ErrorOccurred) fail( "output exceeds the buffer");
			if (e.type==doc::ErrorOccurred && e.val.empty()) fail( "error without message");
		}
		count( "elements returned", x.ev.size()); count( (std::string("runs with ")+what).c_str());
		if (!x.ev.empty()) seen( "last element and error", x.ev.back().type*100+x.ev.back().err);
		return x;
	};
	scan::Res whole=go( "one chunk");
	masks(); q.src=r.chance(1,2)?scan::PUTINPUT:scan::SETSOURCE; q.finalEmpty=r.chance(1,3); q.cuts.clear(); {size_t i=0, s=1+r.below(20); for (;;) {i+=r.below(s)+(r.chance(1,9)?0:1); if (i>=b.size()) break; q.cuts.push_back( i);}}
	go( "chunks"); q.cuts.clear(); q.finalEmpty=false; q.out=enc::UTF8;
	masks(); q.src=r.chance(1,2)?scan::ISTREAM:scan::STDISTREAM; q.bufsize=1+r.below(64); q.blocks.clear(); if (r.chance(1,2)) for (int k=0;k<3;++k) q.blocks.push_back( 1+r.below(9));
	go( "input stream");
	masks(); q.src=scan::CSTRSIZE; go( "sized string");
	if (b.find('\0')==std::string::npos && c.in!=enc::UCS4LE) {masks(); q.src=scan::CSTR; go( "C string");}
#ifndef VG
	masks(); q.src=scan::WHOLE; q.buf=scan::STATIC; q.cap=r.below( 40); go( "static buffer");
	masks(); q.buf=scan::VECTOR; go( "vector buffer");
#endif
	{masks(); q.buf=scan::STRING; q.src=scan::WHOLE; q.useIterator=true; go( "iterator");}
	{note( head+"\nlinear scanner"); Linear l={b,c.page,r}; cs::visit( c.in, l);}
	{note( head+"\ntext scanner"); Text t={b,c.page,r}; cs::visit( c.in, t);}
	note( head+"\nheader parser"); hdr( b, r);
	{
		std::string e=r.chance(1,4)?b.substr( 0, 200):expr( r); std::vector<std::string> more; for (unsigned k=r.below(4);k;--k) more.push_back( expr( r));
		int src=r.chance(1,2)?(int)enc::UTF8:(int)r.below( enc::NofEnc);
		std::string desc; for (auto& m:more) desc+=" '"+show(m)+"'";
		note( head+"\npath parser, source character set "+enc::name(src)+" expressions"+desc+" '"+show(e)+"'");
		Path p={e,more,c.page,r,&whole}; cs::visit( src, p);
	}
}
}
