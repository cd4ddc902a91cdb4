// C28: the work done grows linearly with the size of the input. The program is built with -fsanitize-coverage=trace-pc-guard: work is counted as control flow edges taken,
// bytes copied or moved and bytes allocated, which does not depend on the time it takes.
#include "cs.hpp"
#include "textwolf.hpp"
#include "textwolf/xmlprinter.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include "textwolf/xmltagstack.hpp"
#include <setjmp.h>
#include <memory>
#include <functional>
#define NOCOV __attribute__((no_sanitize("coverage")))
struct Work {uint64_t edges, copied, allocated;};
static Work g_work;
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard( uint32_t*) {++g_work.edges;}
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init( uint32_t*, uint32_t*) {}
extern "C" NOCOV void* memcpy( void* d, const void* s, size_t n) {g_work.copied+=n; void* rt=d; __asm__ volatile( "rep movsb" :"+D"(d),"+S"(s),"+c"(n) : : "memory"); return rt;}
extern "C" NOCOV void* memset( void* d, int c, size_t n) {g_work.copied+=n; void* rt=d; __asm__ volatile( "rep stosb" :"+D"(d),"+c"(n) :"a"(c) : "memory"); return rt;}
extern "C" NOCOV void* memmove( void* d, const void* s, size_t n)
{
	g_work.copied+=n; void* rt=d;
	if ((char*)d<=(const char*)s || (char*)d>=(const char*)s+n) {__asm__ volatile( "rep movsb" :"+D"(d),"+S"(s),"+c"(n) : : "memory");}
	else {char* e=(char*)d+n-1; const char* f=(const char*)s+n-1; __asm__ volatile( "std\n\trep movsb\n\tcld" :"+D"(e),"+S"(f),"+c"(n) : : "memory");}
	return rt;
}
extern "C" {
void* __real_malloc( size_t); void* __real_calloc( size_t, size_t); void* __real_realloc( void*, size_t);
NOCOV void* __wrap_malloc( size_t n) {g_work.allocated+=n; return __real_malloc( n);}
NOCOV void* __wrap_calloc( size_t k, size_t n) {g_work.allocated+=k*n; return __real_calloc( k, n);}
NOCOV void* __wrap_realloc( void* p, size_t n) {g_work.allocated+=n; return __real_realloc( p, n);}
}
NOCOV void* operator new( size_t n) {g_work.allocated+=n; void* p=__real_malloc( n?n:1); if (!p) throw std::bad_alloc(); return p;}
NOCOV void* operator new[]( size_t n) {return operator new( n);}
NOCOV void operator delete( void* p) noexcept {free( p);}
NOCOV void operator delete[]( void* p) noexcept {free( p);}
NOCOV void operator delete( void* p, size_t) noexcept {free( p);}
NOCOV void operator delete[]( void* p, size_t) noexcept {free( p);}
namespace vf {
extern const Check check;
const Check check={"C28",2400,40000,"distinct (kind of work, shape of the input, character set, source, parameters) tuples",0,240};
using namespace textwolf; typedef XMLScannerBase XB; typedef std::string Str;
enum {Factor=16,Limit=40};
// work on an input of the size n and of the size Factor*n
static void judge( const Str& what, size_t n, const std::function<void(size_t)>& f)
{
	note( what+", sizes "+num( n)+" and "+num( n*Factor));
	Work w[2]; f( n/4+1); // (what is initialized once only is not measured)
	for (int i=0;i<2;++i) {Work b=g_work; f( i?n*Factor:n); w[i].edges=g_work.edges-b.edges; w[i].copied=g_work.copied-b.copied; w[i].allocated=g_work.allocated-b.allocated;}
	if (!w[0].edges) fail( "no work measured");
	const struct {const char* name; uint64_t a,b;} m[]={{"branches",w[0].edges,w[1].edges},{"bytes copied",w[0].copied,w[1].copied},{"bytes allocated",w[0].allocated,w[1].allocated}};
	for (auto& x:m)
	{
		if (verbose()) fprintf( stderr, "%s %s %llu %llu\n", what.c_str(), x.name, (unsigned long long)x.a, (unsigned long long)x.b);
		if (x.b>Limit*x.a+65536) fail( num( x.b)+" "+x.name+" for an input "+num( Factor)+" times as large as one taking "+num( x.a)+": "+what);
		maxv( (Str("largest quotient of ")+x.name+" (percent of linear)").c_str(), x.a>4096?x.b*100/(x.a*Factor):0);
	}
	count( "pairs of sizes measured"); maxv( "branches counted in a measurement", w[1].edges); seen( "kinds of work", hash( what)); distinct( hash( what)+n);
}
static Str rep( const Str& s, size_t n) {Str o; o.reserve( n+s.size()); while (o.size()<n) o+=s; return o;}
static Str letters( Rng& r, unsigned n, const char* from="abcdefghijk") {Str s; size_t l=strlen( from); while (n--) s+=from[ r.below( l)]; return s;}
// documents by size; what does not repeat is chosen once
struct Shape
{
	Str head, unit, tail; bool nest; Str nesttail; const char* name;
	Str doc( size_t n) const {Str o=head; if (!nest) return o+rep( unit, n)+tail; size_t k=n/unit.size()+1; for (size_t i=0;i<k;++i) o+=unit; for (size_t i=0;i<k;++i) o+=nesttail; return o+tail;}
};
static Shape shape( Rng& r)
{
	static const char* refs[]={"&lt;","&amp;","&#65;","&#x41;","&quot;","&nosuch;","&x","&","&#","&#x;","&#00065;","&"}; Shape s; s.nest=false; s.head="<a>"; s.tail="</a>"; Str t=letters( r, 1+r.below( 40)), name=letters( r, 1+r.below( 12));
	switch (r.below( 22))
	{
		case 0: s.name="text"; s.unit=t+" "; break;
		case 1: s.name="references in text"; s.unit=(r.chance(1,2)?t:Str())+refs[ r.below(12)]+refs[ r.below(12)]; break;
		case 2: s.name="elements"; s.unit="<"+name+">"+t+"</"+name+">"; break;
		case 3: s.name="elements without text"; s.unit=r.chance(1,2)?"<"+name+"/>":"<"+name+"></"+name+">"; break;
		case 4: s.name="open tags"; s.unit="<"+name+">"; s.tail=""; break;
		case 5: s.name="nested elements"; s.unit="<"+name+">"+(r.chance(1,2)?t:Str()); s.nest=true; s.nesttail="</"+name+">"; break;
		case 6: s.name="attributes"; s.head="<a"; s.unit=" "+name+"=\""+letters( r, r.below( 12))+"\""; s.tail="/>"; break;
		case 7: s.name="attribute value"; s.head="<a b='"; s.unit=t; s.tail="'/>"; break;
		case 8: s.name="references in an attribute value"; s.head="<a b=\""; s.unit=(r.chance(1,2)?t:Str())+refs[ r.below(12)]; s.tail="\"/>"; break;
		case 9: s.name="tag name"; s.head="<a"; s.unit=name; s.tail="/>"; break;
		case 10: s.name="attribute name"; s.head="<a "; s.unit=name; s.tail="='1'/>"; break;
		case 11: s.name="comment"; s.head="<a><!--"; s.unit=r.chance(1,2)?t:t+"- "; s.tail="--></a>"; break;
		case 12: s.name="comments"; s.unit="<!--"+t+"-->"; break;
		case 13: s.name="processing instruction"; s.head="<?xml version='1.0'?><a><?x "; s.unit=r.chance(1,2)?t:t+"? "; s.tail="?></a>"; break;
		case 14: s.name="processing instructions"; s.unit="<?"+name+" "+t+"?>"; break;
		case 15: s.name="section"; s.head="<a><![CDATA["; s.unit=r.chance(1,2)?t:r.chance(1,2)?t+"]] ":Str("]"); s.tail="]]></a>"; break;
		case 16: s.name="sections"; s.unit="<![CDATA["+t+"]]>"; break;
		case 17: s.name="white space"; {static const char* w[]={" ","\n","\r\n","\r","\t"," \n"}; s.unit=w[ r.below(6)]; if (r.chance(1,3)) s.head="<a b='1' "; } break;
		case 18: s.name="lines"; s.unit=t+(r.chance(1,2)?"\r\n":r.chance(1,2)?"\n":"\r"); break;
		case 19: s.name="document type"; s.head="<!DOCTYPE a ["; s.unit="<!ENTITY "+name+" '"+letters( r, 6)+"'>"; s.tail="]><a/>"; break;
		case 20: s.name="document type literal"; s.head="<!DOCTYPE a PUBLIC '"; s.unit=t; s.tail="' \"y\"><a/>"; break;
		default: s.name="header attribute"; s.head="<?xml version='"; s.unit=t; s.tail="'?><a/>";
	}
	if (r.chance(1,8)) {s.tail=r.chance(1,2)?"<":""; s.nesttail=""; if (s.nest) s.nesttail="";}	// cut off
	return s;
}
struct Scan
{
	Rng& r; Shape s; unsigned how; size_t piece; unsigned short mask; bool same;
	struct St {jmp_buf eom; const Str* b; size_t at, piece;};
	template <class S> NOCOV static void items( S& sc, unsigned short mask)
	{
		for (uint64_t n=0;;++n) {XB::ElementType t=sc.nextItem( mask); if (t==XB::Exit||t==XB::ErrorOccurred) break; if (n>(1u<<26)) fail( "does not end");}
	}
	template <class CS,class OUT> void chunks( const Str& b)
	{
		typedef XMLScanner<SrcIterator,CS,OUT,Str> S; std::unique_ptr<St> st( new St()); st->b=&b; st->at=0; st->piece=piece; std::unique_ptr<S> sc( new S( cs::Info<CS>::make( 1), SrcIterator( b.data(), 0, &st->eom)));
		if (setjmp( st->eom)!=0) {size_t n=std::min( st->piece, st->b->size()-st->at); sc->getIterator().putInput( st->b->data()+st->at, n, n?&st->eom:0); st->at+=n;}
		items( *sc, mask);
	}
	template <class CS,class OUT> void with( size_t n)
	{
		Str t=s.doc( n), b; b.reserve( t.size()*4); for (char c:t) enc::put( b, cs::Info<CS>::id, (unsigned char)c);
		switch (how)
		{
			case 0: chunks<CS,OUT>( b); break;
			case 1:
			{
				struct In :public IStream {const Str& b; size_t at, max; In( const Str& b_, size_t m) :b(b_),at(0),max(m) {} size_t read( void* d, size_t k) {k=std::min( std::min( k, max), b.size()-at); memcpy( d, b.data()+at, k); at+=k; return k;} int errorcode() const {return 0;}};
				In in( b, piece); IStreamIterator it( &in, 1+piece); typedef XMLScanner<IStreamIterator,CS,OUT,Str> S; S sc( cs::Info<CS>::make( 1), it); items( sc, mask); break;
			}
			default: {b.append( 4, '\0'); typedef XMLScanner<char*,CS,OUT,Str> S; S sc( cs::Info<CS>::make( 1), &b[0]); items( sc, mask);}
		}
	}
	template <class CS> void go()
	{
		const size_t n=(cs::Info<CS>::id==enc::UTF8?2000:1000)+r.below( 2000);
		judge( Str("scan of ")+s.name+" in "+enc::name( cs::Info<CS>::id)+", source "+num( how)+" pieces "+num( piece)+" mask "+num( mask)+(same?" same output":"")+" unit '"+show( s.unit)+"'", n, [&](size_t k) {if (same) with<CS,CS>( k); else with<CS,charset::UTF8>( k);});
	}
};
struct Print
{
	Rng& r; unsigned kind; Str name, text;
	template <class CS> void go()
	{
		judge( Str("printing of kind ")+num( kind)+" in "+enc::name( cs::Info<CS>::id)+" names '"+name+"' texts '"+show( text)+"'", 2000+r.below( 4000), [&](size_t n)
		{
			typedef XMLPrinter<CS,charset::UTF8,Str> P; P p( cs::Info<CS>::make( 1)); Str o; bool ok=p.printHeader( 0, 0, o) && p.printOpenTag( "r", 1, o); size_t k=n/(name.size()+text.size()+5)+1;
			switch (kind)
			{
				case 0: {Str t=rep( text, n); ok=ok && p.printValue( t.data(), t.size(), o); break;}
				case 1: for (size_t i=0;i<k && ok;++i) ok=p.printOpenTag( name.data(), name.size(), o) && p.printValue( text.data(), text.size(), o) && p.printCloseTag( o); break;
				case 2: for (size_t i=0;i<k && ok;++i) ok=p.printOpenTag( name.data(), name.size(), o); for (size_t i=0;i<k && ok;++i) ok=p.printCloseTag( o); break;
				case 3: {Str t=rep( text, n); ok=ok && p.printAttribute( name.data(), name.size(), o) && p.printValue( t.data(), t.size(), o); break;}
				case 4: for (size_t i=0;i<k && ok;++i) ok=p.printAttribute( name.data(), name.size(), o) && p.printValue( text.data(), text.size(), o); break;
				case 5: {Str t=rep( name, n); ok=ok && p.printOpenTag( t.data(), t.size(), o) && p.printCloseTag( o); break;}
				default: for (size_t i=0;i<k && ok;++i) ok=p.printValue( text.data(), text.size(), o);
			}
			if (!ok) fail( "print call refused");
		});
	}
};
struct Select
{
	Rng& r;
	template <class CS> void go()
	{
		typedef XMLPathSelectAutomaton<CS> A; typedef XMLPathSelect<CS> Sel; static const char* ex[]={"/a/b","//b","//b@x","/a//c()","//*","/a/b[@x='1']/c~","//c@*","//b()","/a/*//c","//b~"}; unsigned n=1+r.below(4); Str what;
		std::unique_ptr<XMLPathSelectAutomatonParser<charset::UTF8,CS> > a( new XMLPathSelectAutomatonParser<charset::UTF8,CS>()); for (unsigned i=0;i<n;++i) {const char* e=ex[ r.below(10)]; if (a->addExpression( 1+i, e, strlen( e))) fail( Str("expression refused ")+e); what+=Str(" ")+e;}
		struct Ev {XB::ElementType t; const char* k;}; std::vector<Ev> blk; unsigned d=0, len=2+r.below( 20); bool tag=false; static const char* nm[]={"a","b","c"};
		while (blk.size()<len||d) {unsigned k=r.below(5); if (blk.size()>=len) k=4; if (k<2 && d<4) {Ev e={XB::OpenTag,nm[ r.below(3)]}; blk.push_back( e); ++d; tag=true;} else if (k==2 && tag) {Ev e={XB::TagAttribName,r.chance(1,2)?"x":"y"}, v={XB::TagAttribValue,"1"}; blk.push_back( e); blk.push_back( v);} else if (k==3) {Ev e={XB::Content,"text"}; blk.push_back( e); tag=false;} else if (d) {Ev e={XB::CloseTag,""}; blk.push_back( e); --d; tag=false;}}
		const bool deep=r.chance(1,3); if (deep) {blk.clear(); unsigned k=1+r.below(4); while (k--) {Ev e={XB::OpenTag,nm[ r.below(3)]}; blk.push_back( e); if (r.chance(1,2)) {Ev n={XB::TagAttribName,"x"}, v={XB::TagAttribValue,"1"}; blk.push_back( n); blk.push_back( v);} if (r.chance(1,2)) {Ev t={XB::Content,"text"}; blk.push_back( t);}} what+=" nested";}
		for (auto& e:blk) {what+=Str(" ")+XB::getElementTypeName( e.t)+":"+e.k;}
		judge( Str("selection in ")+enc::name( cs::Info<CS>::id)+what, 300+r.below( 700), [&](size_t m)
		{
			Sel s( a.get()); uint64_t hits=0; std::vector<std::pair<XB::ElementType,Str> > ev; for (auto& e:blk) {Str k; for (const char* c=e.k;*c;++c) enc::put( k, cs::Info<CS>::id, (unsigned char)*c); ev.push_back( std::make_pair( e.t, k));}
			Str root; enc::put( root, cs::Info<CS>::id, 'a'); for (typename Sel::iterator i=s.push( XB::OpenTag, root.data(), root.size()),e;i!=e;++i) ++hits;
			for (size_t q=0;q<m;++q) for (auto& x:ev) for (typename Sel::iterator i=s.push( x.first, x.second.data(), x.second.size()),e;i!=e;++i) ++hits;
			if (deep) for (size_t q=0;q<m;++q) for (auto& x:ev) if (x.first==XB::OpenTag) for (typename Sel::iterator i=s.push( XB::CloseTag, x.second.data(), x.second.size()),e;i!=e;++i) ++hits;
		});
	}
};
static void other( Rng& r)
{
	switch (r.below(4))
	{
		case 0:
		{
			unsigned kind=r.below(4), w=1<<r.below(3); size_t piece=r.chance(1,2)?1:1+r.below( 5000);
			judge( Str("header parser, kind ")+num( kind)+" width "+num( w)+" pieces of "+num( piece), 1000+r.below( 2000), [&](size_t n)
			{
				static const char* h[]={"<?xml version='","<?xml ","<?xml version='1.0' encoding='","<?xml version='1.0"}; static const char* u[]={"abc"," \n","utf-","' version='1.0"}; static const char* t[]={"'?>","?>","'?>","'?>"}; Str s=h[kind]+rep( u[kind], n)+t[kind], b; for (char c:s) {b+=c; b.append( w-1, '\0');}
				XmlHdrParser p; bool ok=false; for (size_t i=0;i<b.size() && !ok;i+=piece) {p.putInput( b.data()+i, std::min( piece, b.size()-i)); ok=p.parse(); if (p.lasterror()) fail( Str("error ")+p.lasterror());} if (!ok) fail( "header not complete");
			});
			break;
		}
		case 1:
		{
			static const char* u[]={"/a","//b","/*"}; Str un=u[ r.below(3)]; unsigned out=r.below(3); bool nm=r.chance(1,3);
			judge( Str("path expression of ")+(nm?"one name":un)+" output "+num( out), 200+r.below( 300), [&](size_t n) {static const char* o[]={"","()","@x"}; Str s=(nm?"/"+rep( "abc", n):rep( un, n))+o[out]; XMLPathSelectAutomatonParser<charset::UTF8,charset::UTF8> a; if (a.addExpression( 1, s.data(), s.size())) fail( "expression refused");});
			break;
		}
		case 2:
		{
			unsigned len=r.below( 30); bool deep=r.chance(1,2); judge( Str("tag stack of tags of length ")+num( len)+(deep?" nested":""), 1000+r.below( 3000), [&](size_t n) {TagStack st; Str t( len, 'x'); const void* e; size_t k; for (size_t i=0;i<n;++i) {st.push( t.data(), t.size()); if (!deep && i%3==2) {st.top( e, k); st.pop(); st.pop(); st.pop();}} while (!st.empty()) {if (!st.top( e, k)||k!=len) fail( "tag on the stack"); st.pop();}}); break;
		}
		default:
		{
			unsigned one=r.below(2); judge( Str("static buffer filled by ")+(one?"characters":"blocks"), 1000+r.below( 3000), [&](size_t n) {StaticBuffer b( n); if (one) for (size_t i=0;i<n;++i) b.push_back( 'x'); else for (size_t i=0;i+7<n;i+=7) b.append( "abcdefg", 7); if (b.overflow()) fail( "overflow"); for (size_t i=0;i<b.size();++i) if (!b[i]) fail( "content");});
		}
	}
}
void init() {}
void run( uint64_t, Rng& r)
{
	unsigned k=r.below( 10);
	if (k<6) {static const unsigned short masks[]={0xFFFF,0,(unsigned short)~(1u<<XB::Content),(unsigned short)(1u<<XB::OpenTag)}; Scan s={r,shape( r),(unsigned)r.below(3),r.chance(1,3)?1:1+r.below( r.chance(1,2)?16:5000),masks[ r.chance(1,2)?0:r.below(4)],r.chance(1,3)}; cs::visit( (int)r.below( enc::NofEnc), s);}
	else if (k==6) {Print p={r,(unsigned)r.below(7),letters( r, 1+r.below( 20)),letters( r, 1+r.below( 30), "abcdef <>&\"'\n")}; cs::visit( (int)r.below( enc::NofEnc), p);}
	else if (k==7) {Select s={r}; cs::visit( (int)r.below( enc::NofEnc), s);}
	else other( r);
}
}
