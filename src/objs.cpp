// Objects of the library with a uniform interface: they execute an operation of a script and yield what is observable as string
// -DPART=n: the kinds of objects in this translation unit
#include "cs.hpp"
#include "gendoc.hpp"
#include "pathmodel.hpp"
#include "objs.hpp"
#include "textwolf/xmlprinter.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/xmltagstack.hpp"
#include "textwolf/istreamiterator.hpp"
#include <csetjmp>
#include <new>
namespace vf {
namespace {
using namespace textwolf;
template <class D> struct ObjOf :Obj
{
	virtual Obj* copy() const {return new D( *(const D*)this);}
	virtual void assign( const Obj* o) {*(D*)this=*(const D*)o;}
};
static Str bytesOf( const char* p, size_t n) {return Str( p, n);}

// ---- scanners
static thread_local jmp_buf g_eom;
template <class SC> struct ScanObj :ObjOf<ScanObj<SC> >
{
	SC sc; const std::vector<Str>* chunks; size_t next; volatile int rt;
	template <class It, class CS> ScanObj( const CS& cs, const It& it, const typename SC::EntityMap& em, const std::vector<Str>* c) :sc( cs, it, em),chunks(c),next(1),rt(0) {}
	ScanObj( const ScanObj& o) :sc(o.sc),chunks(o.chunks),next(o.next),rt(o.rt) {}
	ScanObj& operator=( const ScanObj& o) {sc=o.sc; chunks=o.chunks; next=o.next; rt=o.rt; return *this;}
	void feed( CStringIterator&) {} void feed( IStreamIterator&) {}
	void feed( SrcIterator& it) {if (next>=chunks->size()) {if (!afterFailure()) vf::fail( "more input requested after the last chunk"); it.putInput( "", 0, 0); return;} const Str& c=(*chunks)[next++]; it.putInput( c.data(), c.size(), next<chunks->size()?&g_eom:0);}
	void next_( unsigned mask)
	{
		if (setjmp( g_eom)!=0) feed( sc.getIterator());
		rt=(int)sc.nextItem( mask);
	}
	Str step( const Op& o)
	{
		Str r; unsigned look=o.a?o.b%16:1; const char* m=0;
		if (look) {next_( o.a?0xFFFF:o.b); r=num(rt)+" ";} else r+="looked ";	// without taking an element: what was reported for the last one
		if (look<12) {int e=sc.getError( &m); r+=num( e); if (e) r+=m;} // otherwise the error is left for a later look
		if (o.a && rt!=XMLScannerBase::ErrorOccurred) r+=bytesOf( sc.getItemPtr(), sc.getItemSize());
		return r+" "+num( sc.getPosition())+" "+num( sc.getTokenPosition());
	}
};
struct MemStream :IStream
{
	Str d; size_t pos; MemStream( const Str& d_) :d(d_),pos(0) {}
	size_t read( void* p, size_t n) {n=std::min( n, d.size()-pos); memcpy( p, d.data()+pos, n); pos+=n; return n;}
	int errorcode() const {return 0;}
};
template <class In> struct Docs
{
	Str a, b; std::vector<Str> chunks; int page;
	In charset( bool first) const {return cs::Info<In>::make( first?page:1+page%9);}	// (the code page of the other one differs)
	Docs( Rng& r)
	{
		gd::Case c; c.in=cs::Info<In>::id; c.page=page=1+(int)r.below(9); c.out=enc::UTF8; doc::Opt o; o.ents=&gd::ents(); gd::generate( r, c, o); if (r.chance(1,4)) gd::mutate( r, c.src, 1, c.opt.ok); a=enc::enc( c.src, c.in, page);
		c.page=1+page%9; gd::generate( r, c, o); b=c.bytes; if (a.size()>3000) a.resize( 3000); if (b.size()>3000) b.resize( 3000);
		size_t p=0; unsigned n=1+r.below(30); while (p<a.size()) {size_t l=std::min( a.size()-p, (size_t)r.below( a.size()/n+2)); chunks.push_back( a.substr( p, l)); p+=l; if (chunks.size()>500) {chunks.push_back( a.substr( p)); break;}} if (chunks.empty()) chunks.push_back( "");
	}
};
template <class EM> void fillEnts( EM& em) {for (auto& e:gd::ents()) em[ e.first.c_str()]=e.second;}
template <class In, class Out, class Buf> struct ScanSrc :World
{
	typedef XMLScanner<SrcIterator,In,Out,Buf> SC; Docs<In> d; typename SC::EntityMap em; std::vector<Str> one; ScanSrc( Rng& r) :d(r),one( 1, d.b) {fillEnts( em);}
	Obj* fresh() {return new ScanObj<SC>( d.charset( true), SrcIterator( d.chunks[0].data(), d.chunks[0].size(), d.chunks.size()>1?&g_eom:0), em, &d.chunks);}
	Obj* other() {return new ScanObj<SC>( d.charset( false), SrcIterator( d.b.data(), d.b.size()), em, &one);}
	Op op( Rng& r) {return Op( !r.chance(1,8), r.below( 65536));} const char* name() const {return "scanner of chunks";} bool shareable() const {return true;}
};
template <class In, class Out> struct ScanCStr :World
{
	typedef XMLScanner<CStringIterator,In,Out,Str> SC; Docs<In> d; typename SC::EntityMap em; ScanCStr( Rng& r) :d(r) {fillEnts( em);}
	Obj* fresh() {return new ScanObj<SC>( d.charset( true), CStringIterator( d.a.data(), d.a.size()), em, 0);}
	Obj* other() {return new ScanObj<SC>( d.charset( false), CStringIterator( d.b), em, 0);}
	Op op( Rng& r) {return Op( !r.chance(1,8), r.below( 65536));} const char* name() const {return "scanner of a string";} bool shareable() const {return true;}
};
template <class In, class Out> struct ScanStream :World
{
	typedef XMLScanner<IStreamIterator,In,Out,Str> SC; Docs<In> d; typename SC::EntityMap em; std::vector<MemStream*> st; size_t bs; ScanStream( Rng& r) :d(r),bs( d.a.size()+1+r.below(100)) {fillEnts( em);} // (copies share the stream: all of it is read by the first one)
	~ScanStream() {for (auto* s:st) delete s;}
	Obj* fresh() {st.push_back( 0); st.back()=new MemStream( d.a); IStreamIterator it( st.back(), bs); return new ScanObj<SC>( d.charset( true), it, em, 0);}
	Obj* other() {st.push_back( 0); st.back()=new MemStream( d.b); IStreamIterator it( st.back(), 16); return new ScanObj<SC>( d.charset( false), it, em, 0);}
	Op op( Rng& r) {return Op( !r.chance(1,8), r.below( 65536));} const char* name() const {return "scanner of a stream";}
};
// ---- text scanners and iterators
template <class It, class CS> struct TextObj :ObjOf<TextObj<It,CS> >
{
	TextScanner<It,CS> ts; CS cs;
	TextObj( const CS& c, const It& it) :ts( c, it),cs(c) {}
	Str step( const Op& o)
	{
		Str r; switch (o.a) {case 0: r=num( ts.chr()); break; case 1: r=num( ts.ascii()); break; case 2: r=num( ts.control()); break; case 3: ts.copychar( cs, r); break; case 4: r=num( *ts); break; case 5: ++ts; break; case 6: {TextScanner<It,CS> t( ts++); r=num( t.chr()); break;} default: ts.skip();}
		return r+" "+num( ts.getPosition());
	}
};
template <class It> struct Src;
template <> struct Src<SrcIterator> {SrcIterator it; Src( const Str& s, bool) :it( s.data(), s.size()) {} };
template <> struct Src<CStringIterator> {CStringIterator it; Src( const Str& s, bool) :it( s.data(), s.size()) {} };
template <> struct Src<char*> {char* it; Src( const Str& s, bool) :it( const_cast<char*>( s.c_str())) {} };
template <> struct Src<IStreamIterator> {MemStream m; IStreamIterator it; Src( const Str& s, bool all) :m(s),it( &m, all?s.size()+1:8) {} };
static Str randomText( Rng& r, int id, size_t n, int page=1) {enc::U u; while (n--) {static const char32_t set[]={'a','<','&',' ','\n','\r','\t','0',0xe9,0xff,0x20ac,0x3bb,0x1d11e,0x10ffff,0xfffd}; char32_t c=r.chance(1,2)?32+r.below(95):set[ r.below( 15)]; if (id==enc::ISO && r.chance(1,2)) c=enc::isoTable[ page-1][ r.below(128)]; u+=enc::rep( id, c, page)?c:U'?';} return enc::enc( u, id, page);}
template <class It, class CS> struct TextWorld :World
{
	int page; Str a, b; std::vector<Src<It>*> src; TextWorld( Rng& r) :page( 1+(int)r.below(9)),a( randomText( r, cs::Info<CS>::id, r.below( 60), page)+Str( 200, '\0')),b( randomText( r, cs::Info<CS>::id, r.below( 60))+Str( 200, '\0')) {}
	~TextWorld() {for (auto* s:src) delete s;}
	Obj* fresh() {src.reserve(64); src.push_back( 0); src.back()=new Src<It>( a, true); return new TextObj<It,CS>( cs::Info<CS>::make( page), src.back()->it);}
	Obj* other() {src.reserve(64); src.push_back( 0); src.back()=new Src<It>( b, false); return new TextObj<It,CS>( cs::Info<CS>::make( 1+page%9), src.back()->it);}
	Op op( Rng& r) {return Op( r.below( 8));} const char* name() const {return "text scanner";} 
	size_t length() const {return 25;}
};
template <class It> struct ItObj :ObjOf<ItObj<It> >
{
	It it; It start; ItObj( const It& i) :it(i),start(i) {}
	static size_t pos( SrcIterator& i) {return i.position()+1000000*i.getPosition();} static size_t pos( CStringIterator& i) {return i.pos();} static size_t pos( IStreamIterator& i) {return i.position();}
	Str step( const Op& o) {if (o.a) ++it; Str r=num( (unsigned char)*it); r+=" "+num( pos( it))+" "+num( (size_t)(it-start)); return r;}
};
template <class It> struct ItWorld :World
{
	Str a, b; std::vector<Src<It>*> src; ItWorld( Rng& r) :a( randomText( r, enc::UTF8, 1+r.below( 60))+Str( 40, '.')),b( randomText( r, enc::UTF8, 1+r.below( 60))+Str( 40, '.')) {}
	~ItWorld() {for (auto* s:src) delete s;}
	Obj* fresh() {src.reserve(64); src.push_back( 0); src.back()=new Src<It>( a, true); return new ItObj<It>( src.back()->it);}
	Obj* other() {src.reserve(64); src.push_back( 0); src.back()=new Src<It>( b, true); return new ItObj<It>( src.back()->it);}
	Op op( Rng& r) {return Op( r.chance(2,3));} const char* name() const {return "source iterator";}
	size_t length() const {return 40;}
};
// input chunk by chunk with an end of message trigger: the iterator has to trigger at the end of each chunk but the last one
struct EomObj :ObjOf<EomObj>
{
	SrcIterator it; const std::vector<Str>* chunks; size_t next;
	explicit EomObj( const std::vector<Str>* c) :chunks(c),next(1) {it.putInput( (*c)[0].data(), (*c)[0].size(), c->size()>1?&g_eom:0);}
	static char read( SrcIterator* i, bool* eom) {if (setjmp( g_eom)!=0) {*eom=true; return 0;} *eom=false; return **i;}
	Str step( const Op& o)
	{
		if (o.a && !it.endOfChunk()) ++it;
		Str r; bool eom;
		do
		{
			const char c=read( &it, &eom); r+=eom?Str( "eom"):num( (unsigned char)c); r+=" "+num( it.position())+" "+num( it.getPosition())+" "+num( it.endOfChunk())+" ";
			if (eom && next<chunks->size()) {const Str& k=(*chunks)[next++]; it.putInput( k.data(), k.size(), next<chunks->size()?&g_eom:0);}
			else if (eom) {if (!afterFailure()) vf::fail( "trigger after the last chunk"); it.putInput( "", 0, 0);}
		}
		while (eom);
		return r;
	}
};
struct EomWorld :World
{
	std::vector<Str> c, d; EomWorld( Rng& r) {for (auto* v:{&c,&d}) for (size_t k=1+r.below(8);k;--k) v->push_back( randomText( r, enc::UTF8, r.below( 8)));}
	static EomObj* mk( const std::vector<Str>& c) {return new EomObj( &c);}
	Obj* fresh() {return mk( c);}
	Obj* other() {return mk( d);}
	Op op( Rng& r) {return Op( r.chance(3,4));} const char* name() const {return "source iterator with end of chunk trigger";} bool shareable() const {return true;}
};
// ---- path selection
template <class CS> struct SelObj :ObjOf<SelObj<CS> >
{
	XMLPathSelect<CS> sel; SelObj( const XMLPathSelectAutomaton<CS>* a) :sel( a) {}
	Str step( const Op& o)
	{
		Str r; typename XMLPathSelect<CS>::iterator it=sel.push( (XMLScannerBase::ElementType)o.a, o.s.data(), (int)o.s.size()), en=sel.end();
		if (it!=en) {typename XMLPathSelect<CS>::iterator c( it), d; d=it; if (!(c==it)||*c!=*it||*d!=*it) vf::fail( "copy of the iterator differs");}
		for (unsigned n=1;it!=en && n!=o.b;++it,++n) r+=num( *it)+" ";	// (b>0: the iteration is left early)
		return r;
	}
};
static Op eventOp_( Rng& r, int id, const pm::Vocab& v)
{
	switch (r.below(6))
	{
		case 0: case 1: return Op( XMLScannerBase::OpenTag, 0, enc::prn( v.names[ r.below(3)], id));
		case 2: return Op( XMLScannerBase::TagAttribName, 0, enc::prn( v.atts[ r.below(3)], id));
		case 3: return Op( XMLScannerBase::TagAttribValue, 0, enc::prn( v.values[ r.below(3)], id));
		case 4: return Op( XMLScannerBase::Content, 0, enc::prn( v.texts[ r.below(3)], id));
		default: return Op( r.chance(1,2)?XMLScannerBase::CloseTag:XMLScannerBase::CloseTagIm, 0, enc::prn( v.names[ r.below(3)], id));
	}
}
static Op eventOp( Rng& r, int id, const pm::Vocab& v) {Op o=eventOp_( r, id, v); if (r.chance(1,8)) o.b=1+r.below(2); return o;}
template <class CS> struct SelWorld :World
{
	XMLPathSelectAutomaton<CS> a, b; SelWorld( Rng& r) {for (int k=0;k<5;++k) {pm::Lib<CS>::define( r, a, expr( r, k+1)); pm::Lib<CS>::define( r, b, expr( r, k+100));}}
	static pm::Expr expr( Rng& r, int type) {pm::ExprOpt o; pm::Expr x=pm::genExpr( r, 3, type, o); if (x.steps.empty()) x.out=pm::Expr::Content; return x;}
	Obj* fresh() {return new SelObj<CS>( &a);}
	Obj* other() {return new SelObj<CS>( &b);}
	Op op( Rng& r) {return eventOp( r, cs::Info<CS>::id, pm::vocab());} const char* name() const {return "path selector";} bool shareable() const {return true;}
};
template <class CS> struct AtmObj :ObjOf<AtmObj<CS> >
{
	XMLPathSelectAutomaton<CS> atm;
	Str step( const Op& o)
	{
		if (o.a==0)
		{
			Rng r( o.b); pm::Lib<CS>::define( r, atm, SelWorld<CS>::expr( r, 1+o.b%7)); return atm.tostring();
		}
		Str res; XMLPathSelect<CS> sel( &atm); Rng r( o.b); for (int k=0;k<20;++k) {Op e=eventOp( r, cs::Info<CS>::id, pm::vocab()); typename XMLPathSelect<CS>::iterator it=sel.push( (XMLScannerBase::ElementType)e.a, e.s), en=sel.end(); for (;it!=en;++it) res+=num( *it)+","; res+=";";}
		return res;
	}
};
template <class CS> struct AtmWorld :World
{
	AtmWorld( Rng&) {} Obj* fresh() {return new AtmObj<CS>();}
	Obj* other() {return new AtmObj<CS>();}
	Op op( Rng& r) {return Op( r.chance(1,3), r.below( 1000000));} const char* name() const {return "automaton";} size_t length() const {return 16;}
};
template <class S, class A> struct ParObj :ObjOf<ParObj<S,A> >
{
	XMLPathSelectAutomatonParser<S,A> p;
	Str step( const Op& o)
	{
		if (o.a) {int rt=p.addExpression( o.b, o.s.data(), o.s.size()); return num( rt)+p.tostring();}
		Str res; XMLPathSelect<A> sel( &p); Rng r( o.b); for (int k=0;k<20;++k) {Op e=eventOp( r, cs::Info<A>::id, pm::vocab()); typename XMLPathSelect<A>::iterator it=sel.push( (XMLScannerBase::ElementType)e.a, e.s), en=sel.end(); for (;it!=en;++it) res+=num( *it)+","; res+=";";}
		return res;
	}
};
template <class S, class A> struct ParWorld :World
{
	ParWorld( Rng&) {} Obj* fresh() {return new ParObj<S,A>();}
	Obj* other() {return new ParObj<S,A>();}
	Op op( Rng& r)
	{
		static const char* ex[]={"/a","//b()","a[@i='1']","//{a,b,c}/@k","/a[@i=1]//b[@k=\"2\"]()","/a[1]()","a/b~","//*","@*","/a]","{a,b","/a[0,2]()","//a//b//c()"};
		return Op( r.chance(2,3), 1+r.below( 100), enc::enc( enc::asc( ex[ r.below( 13)]), cs::Info<S>::id));
	}
	const char* name() const {return "expression parser";} size_t length() const {return 16;}
};
// ---- printer, header parser, buffers
template <class Out, class App> struct PrnObj :ObjOf<PrnObj<Out,App> >
{
	XMLPrinter<Out,App,Str> p; PrnObj( const Out& o, bool sub) :p( o, sub) {}
	Str step( const Op& o)
	{
		Str b; bool ok=false; switch (o.a)
		{
			case 0: ok=p.printHeader( "UTF-8", o.b?"yes":0, b); break; case 1: ok=p.printDoctype( "root", o.b&1?"pub":0, o.b&2?"sys":0, b); break;
			case 2: case 3: ok=p.printOpenTag( o.s.data(), o.s.size(), b); break; case 4: ok=p.printAttribute( o.s.data(), o.s.size(), b); break; case 5: case 6: ok=p.printValue( o.t.data(), o.t.size(), b); break;
			case 7: ok=p.printCloseTag( b); break; case 8: ok=p.exitTagContext( b); break; default: p.reset( o.b&1);
		}
		return num( ok)+" "+num( p.state())+" "+(p.lasterror()?p.lasterror():"-")+" "+b;
	}
};
template <class Out, class App> struct PrnWorld :World
{
	bool sub; int page; PrnWorld( Rng& r) :sub(!r.chance(1,4)),page( 1+r.below(9)) {} static charset::IsoLatin mk( int p, charset::IsoLatin*) {return charset::IsoLatin( p);} template <class X> static X mk( int, X*) {return X();}
	Obj* fresh() {return new PrnObj<Out,App>( mk( page, (Out*)0), sub);}
	Obj* other() {return new PrnObj<Out,App>( mk( 1+page%9, (Out*)0), !sub);}
	Op op( Rng& r) {return Op( r.chance(1,40)?9:r.chance(1,20)?r.below(2):2+r.below(7), r.below(4), enc::prn( r.pick( pm::vocab().names), cs::Info<App>::id)+(r.chance(1,10)?enc::prn( enc::U( 100+r.below(300), U'n'), cs::Info<App>::id):Str()), enc::prn( r.pick( pm::vocab().values)+r.pick( pm::vocab().texts), cs::Info<App>::id));}
	const char* name() const {return "printer";}
};
struct HdrObj :ObjOf<HdrObj>
{
	XmlHdrParser p;
	Str step( const Op& o)
	{
		Str r; if (o.a==0) {p.clear(); r="clear";} else if (o.a<4) p.putInput( o.s.data(), o.s.size());
		else {try {r=num( p.parse());} catch (const textwolf::exception& e) {r=e.what();}}
		return r+" "+(p.encoding()?p.encoding():"-")+" "+(p.lasterror()?p.lasterror():"-")+" "+p.consumedData()+" "+num( p.charsConsumed());
	}
};
struct HdrWorld :World
{
	size_t pos; HdrWorld( Rng&) :pos(0) {} Obj* fresh() {return new HdrObj();}
	Obj* other() {HdrObj* o=new HdrObj(); Op x( 1, 0, "<?xml encoding='x'?>"); o->step( x); x.a=4; o->step( x); return o;}
	Op op( Rng& r) {static const Str h="<?xml version=\"1.0\" encoding='ISO-8859-1' standalone=\"yes\"?>"; if (r.chance(1,25)) {pos=0; return Op( 0);} if (r.chance(1,3)) return Op( 4); size_t n=r.below( 9); Str s=pos<h.size()?h.substr( pos, n):Str(); pos+=n; if (r.chance(1,40)) s+=Str( 1+r.below(5), '\0'); if (r.chance(1,30)) s+="="; return Op( 1, 0, s);}
	const char* name() const {return "header parser";} size_t length() const {return 24;}
};
struct BufObj :ObjOf<BufObj>
{
	StaticBuffer b; BufObj( size_t n) :b(n) {} BufObj( char* p, size_t n) :b( p, n) {}
	Str step( const Op& o)
	{
		switch (o.a) {case 0: b.clear(); break; case 1: b.append( o.s.data(), o.s.size()); break; case 2: if (b.size()) b.resize( b.size()/2); break; default: b.push_back( (char)o.b);}
		return Str( b.ptr(), b.size())+num( b.overflow());
	}
};
struct BufWorld :World
{
	size_t n; bool ext; std::vector<char*> mem; BufWorld( Rng& r) :n( r.below(40)),ext( r.chance(1,2)) {} ~BufWorld() {for (char* m:mem) free( m);}
	Obj* mk( size_t k) {if (!ext) return new BufObj( k); mem.push_back( 0); mem.back()=(char*)malloc( k?k:1); if (!mem.back()) throw std::bad_alloc(); return new BufObj( mem.back(), k);}
	Obj* fresh() {return mk( n);}
	Obj* other() {return mk( 3+n/2);}
	Op op( Rng& r) {return Op( r.chance(1,15)?0:r.chance(1,10)?2:1+2*r.below(2), r.below(256), Str( r.below(9), 'a'+r.below(26)));} const char* name() const {return "static buffer";}
};
struct StackObj :ObjOf<StackObj>
{
	TagStack s;
	Str step( const Op& o)
	{
		if (o.a==0) s.pop(); else if (o.a==1) s.clear(); else s.push( o.s.data(), o.s.size());
		const void* e=0; size_t n=0; bool t=s.top( e, n); return num( t)+num( s.empty())+(t?Str( (const char*)e, n):Str());
	}
};
struct StackWorld :World
{
	StackWorld( Rng&) {} Obj* fresh() {return new StackObj();}
	Obj* other() {StackObj* o=new StackObj(); o->s.push( "otherother", 10); Str l( 1000, 'o'); o->s.push( l.data(), l.size()); return o;}
	Op op( Rng& r) {return Op( r.chance(1,40)?1:r.chance(1,3)?0:2, 0, Str( r.chance(1,8)?r.below( 600):r.below( 20), 'a'+r.below(26)));} const char* name() const {return "tag stack";}
};
struct ExcObj :ObjOf<ExcObj>
{
	textwolf::exception e; ExcObj( int c) :e( (textwolf::exception::Cause)c) {}
	Str step( const Op&) {Str r; try {throw e;} catch (const std::exception& x) {r=x.what();} return r+num( e.cause)+e.what();}
};
struct ExcWorld :World
{
	int c; ExcWorld( Rng& r) :c( r.below(17)) {} Obj* fresh() {return new ExcObj( c);}
	Obj* other() {return new ExcObj( (c+5)%17);}
	Op op( Rng&) {return Op();} const char* name() const {return "exception";} size_t length() const {return 3;}
};
struct IsoObj :ObjOf<IsoObj>
{
	charset::IsoLatin c; IsoObj( int p) :c(p) {}
	Str step( const Op& o) {Str s; c.print( o.b, s); char b[8]; unsigned p=0; const char* x=o.s.c_str(); Str r=s+num( c.value( b, p, x)); for (int i=1;i<=9;++i) r+=charset::IsoLatin::is_equal( c, charset::IsoLatin( i))?"1":"0"; return r;}
};
struct IsoWorld :World
{
	int p; IsoWorld( Rng& r) :p( 1+r.below(9)) {} Obj* fresh() {return new IsoObj( p);}
	Obj* other() {return new IsoObj( 1+p%9);}
	Op op( Rng& r) {return Op( 0, r.chance(1,2)?r.below( 0x600):r.below( 0x11000), Str( 1, (char)r.below(256)));} const char* name() const {return "code page";} size_t length() const {return 12;}
};
// a character set on its own: characters printed (also those it cannot represent) and read
template <class CS> struct CsObj :ObjOf<CsObj<CS> >
{
	CS c; CsObj( const CS& c_) :c(c_) {}
	Str step( const Op& o)
	{
		Str s; c.print( o.b, s); std::vector<char> v; c.print( o.a, v); Str r=s+"|"+Str( v.begin(), v.end());
		char b[8]; unsigned p=0; cs::CIt it( s.data(), s.size(), 0); r+=num( c.value( b, p, it)); p=0; it=cs::CIt( o.s.data(), o.s.size(), 0); r+=" "+num( CS::asciichar( b, p, it)); CS::skip( b, p, it); r+=num( it.pos); return r+num( CS::is_equal( c, c));
	}
};
template <class CS> struct CsWorld :World
{
	int p; CsWorld( Rng& r) :p( 1+(int)r.below(9)) {} Obj* fresh() {return new CsObj<CS>( cs::Info<CS>::make( p));}
	Obj* other() {return new CsObj<CS>( cs::Info<CS>::make( 1+p%9));}
	static uint32_t chr( Rng& r) {switch (r.below(5)) {case 0: return r.below( 128); case 1: return r.below( 0x3000); case 2: return r.below( 0x110000); case 3: return 0x110000+r.below( 0x7000000); default: return (uint32_t)r.u64()&0x7FFFFFFF;}}
	Op op( Rng& r) {uint32_t a=chr( r), b=chr( r); if (a-0xD800<0x800) a=65; if (b-0xD800<0x800) b=66; uint32_t c=chr( r); return Op( a, b, enc::prn( enc::U( 1, c-0xD800<0x800?(char32_t)67:(char32_t)c), cs::Info<CS>::id));} const char* name() const {return "character set";} size_t length() const {return 12;} bool shareable() const {return true;}
};
template <class W> World* mk( Rng& r) {return new W( r);}
}
using namespace textwolf::charset;
#define ADD(...) v.push_back( mk<__VA_ARGS__>)
#if PART==1
void makers1( std::vector<Maker>& v) {ADD( ScanSrc<UTF8,UTF8,Str>); ADD( ScanSrc<UTF16LE,UTF8,Str>); ADD( ScanSrc<UTF8,UTF16BE,std::vector<char> >); ADD( ScanSrc<IsoLatin,UCS4BE,Str>);}
#elif PART==2
void makers2( std::vector<Maker>& v) {ADD( ScanSrc<UCS2LE,UTF8,Str>); ADD( ScanSrc<UCS4LE,IsoLatin,Str>); ADD( ScanSrc<UCS4BE,UCS4BE,Str>); ADD( ScanSrc<UTF16BE,UTF16LE,Str>);}
#elif PART==3
void makers3( std::vector<Maker>& v) {ADD( ScanCStr<UTF8,UTF8>); ADD( ScanCStr<UCS2BE,IsoLatin>); ADD( ScanStream<UTF8,UTF8>); ADD( ScanStream<UTF16BE,UTF8>); ADD( ScanStream<IsoLatin,UTF8>);}
#elif PART==4
void makers4( std::vector<Maker>& v)
{
	ADD( TextWorld<SrcIterator,UTF8>); ADD( TextWorld<CStringIterator,UTF16LE>); ADD( TextWorld<IStreamIterator,UTF8>); ADD( TextWorld<char*,UTF8>); ADD( TextWorld<SrcIterator,UTF16BE>); ADD( TextWorld<CStringIterator,UCS4LE>);
	ADD( TextWorld<IStreamIterator,UCS2LE>); ADD( TextWorld<SrcIterator,IsoLatin>); ADD( TextWorld<char*,UCS2BE>); ADD( TextWorld<char*,UCS4BE>);
	ADD( ItWorld<SrcIterator>); ADD( ItWorld<CStringIterator>); ADD( ItWorld<IStreamIterator>); ADD( EomWorld);
}
#elif PART==5
void makers5( std::vector<Maker>& v) {ADD( SelWorld<UTF8>); ADD( SelWorld<UTF16BE>); ADD( AtmWorld<UTF8>); ADD( AtmWorld<UCS4LE>); ADD( ParWorld<UTF8,UTF8>); ADD( ParWorld<UTF16LE,IsoLatin>);}
#else
void makers6( std::vector<Maker>& v) {ADD( PrnWorld<UTF8,UTF8>); ADD( PrnWorld<UTF16BE,UTF8>); ADD( PrnWorld<IsoLatin,UTF16LE>); ADD( HdrWorld); ADD( BufWorld); ADD( StackWorld); ADD( ExcWorld); ADD( IsoWorld); ADD( CsWorld<UTF8>); ADD( CsWorld<UTF16LE>); ADD( CsWorld<UTF16BE>); ADD( CsWorld<UCS2LE>); ADD( CsWorld<UCS2BE>); ADD( CsWorld<UCS4LE>); ADD( CsWorld<UCS4BE>); ADD( CsWorld<IsoLatin>);}
#endif
}
