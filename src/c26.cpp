// C26: elements are reported as soon as they are complete, with the memory for one element
#include "gendoc.hpp"
#include "cs.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlprinter.hpp"
#include <setjmp.h>
#include <memory>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace vf {
const Check check={"C26",40000,1500000,"distinct (document, character set, source, chunking) tuples",0,60};
void init() { modes::detect( false);}
using namespace textwolf;
typedef XMLScannerBase XB;
struct Obs { int type; size_t need, pos, size; std::string val; };
static std::string at( const std::vector<Obs>& o, size_t i) {return "element "+num(i)+" ("+(i<o.size()?doc::typeName( o[i].type)+std::string(" '")+show( o[i].val, 60)+"'":std::string("none"))+")";}
// a stream that watches what is asked of it
struct Watch :public IStream
{
	const std::string& b; std::vector<size_t> blocks; size_t bufsize, given, reads; const std::vector<Obs>& base; const size_t& done; bool ended;
	Watch( const std::string& b_, size_t bs, const std::vector<Obs>& o, const size_t& d) :b(b_),bufsize(bs),given(0),reads(0),base(o),done(d),ended(false) {}
	virtual std::size_t read( void* buf, std::size_t n)
	{
		if (n>bufsize) fail( "stream asked for "+num(n)+" bytes, buffer size "+num( bufsize));
		if (ended) fail( "stream asked again after it reported the end");
		if (reads && done<base.size() && base[ done].need<given) fail( "stream asked for more data with "+num( given)+" bytes delivered, but "+at( base, done)+" is complete with "+num( base[done].need));
		if (reads && done>=base.size() && base.back().type==XB::Exit) fail( "stream asked for more data after the last element");
		size_t k=n; if (!blocks.empty()) k=std::min( k, blocks[ reads % blocks.size()]); k=std::min( k, b.size()-given); ++reads; count( "reads of streams watched");
		if (!k) {ended=true; return 0;}
		memcpy( buf, b.data()+given, k); given+=k; return k;
	}
	virtual int errorcode() const {return 0;}
};
struct Chunked
{
	jmp_buf eom; std::vector<size_t> cuts; char* p; size_t fed, next; size_t done; bool more;
	Chunked() :p(0),fed(0),next(0),done(0),more(true) {} ~Chunked() {::free( p);}
	// next chunk in an exact copy
	size_t chunk( const std::string& b) {size_t e=next<cuts.size()?cuts[next]:b.size(); ++next; size_t n=e-fed; ::free( p); p=(char*)malloc( n?n:1); memcpy( p, b.data()+fed, n); fed=e; return n;}
};
static size_t complete( const std::vector<Obs>& o, size_t bytes) {size_t n=0; while (n<o.size() && o[n].need<=bytes) ++n; return n;}
// the number of bytes of the character at a position, the one looked at to find out that something ends before it
static size_t character( const std::string& b, size_t pos, int set)
{
	size_t u=enc::unit( set); if (pos>=b.size()) return u; unsigned char c=b[pos];
	if (u==1) return (set==enc::UTF8 && c>=0xC0)?c<0xE0?2:c<0xF0?3:c<0xF8?4:c<0xFC?5:c<0xFE?6:c<0xFF?7:8:1;
	if (set==enc::UTF16LE || set==enc::UTF16BE) {if (set==enc::UTF16LE && pos+1<b.size()) c=b[pos+1]; if (c>=0xD8 && c<0xDC) return 4;}
	return u;
}
struct Lazy
{
	const gd::Case& c; Rng& r; const doc::Evs& ref; const std::vector<size_t>& offs; bool judged; std::vector<unsigned short> masks;
	template <class S> bool item( S& sc, Obs& o, size_t i)
	{
		unsigned short m=masks.empty()?0xFFFF:masks[ i%masks.size()]; o.type=(int)sc.nextItem( m); o.need=0; o.pos=sc.getPosition(); o.size=0;
		if (o.type!=XB::ErrorOccurred && (m&(1<<o.type))) {o.val.assign( sc.getItemPtr(), sc.getItemSize());}
		return o.type!=XB::Exit && o.type!=XB::ErrorOccurred;
	}
	template <class S> std::unique_ptr<typename S::EntityMap> ents() {std::unique_ptr<typename S::EntityMap> em( new typename S::EntityMap()); if (c.opt.ents) for (auto& e:*c.opt.ents) (*em)[ e.first.c_str()]=e.second; return em;}
	template <class CS, class Out> void base( std::vector<Obs>& o)
	{
		typedef XMLScanner<cs::CIt,CS,Out,std::string> S; const std::string& b=c.bytes; size_t need=0; std::unique_ptr<typename S::EntityMap> em( ents<S>()); unsigned u=enc::unit( c.in);
		S sc( cs::Info<CS>::make( c.page), cs::CIt( b.data(), b.size(), &need), *em);
		for (size_t i=0;;++i)
		{
			Obs x; bool go=item( sc, x, i); x.need=need; o.push_back( x);
			if (need>x.pos+character( b, x.pos, c.in)) fail( num( need)+" bytes requested for "+at( o, i)+", scanner position "+num( x.pos));
			if (judged && i<ref.size() && ref[i].type==x.type && x.type!=XB::HeaderStart && x.type!=XB::ErrorOccurred)
			{
				size_t lim=x.type==XB::Exit?b.size()+u:offs[ ref[i].end]+u;
				if (need>lim) fail( num( need)+" bytes requested for "+at( o, i)+", complete with "+num( lim)); count( "elements checked for requests ahead"); seen( "element types", x.type);
			}
			else judged=false;
			if (!go) break; if (i>2*b.size()+200) fail( "does not end");
		}
	}
	template <class CS> void chunks( const std::vector<Obs>& o)
	{
		typedef XMLScanner<SrcIterator,CS,charset::UTF8,std::string> S; const std::string& b=c.bytes; std::unique_ptr<typename S::EntityMap> em( ents<S>()); std::unique_ptr<Chunked> k( new Chunked());
		{size_t i=0, m=r.chance(1,3)?2:r.chance(1,2)?9:100; for (;;) {i+=r.below( m); if (i>=b.size()||k->cuts.size()>4000) break; k->cuts.push_back( i);}}
		SrcIterator si; size_t n=k->chunk( b); k->more=k->next<=k->cuts.size(); si.putInput( k->p, n, &k->eom);
		std::unique_ptr<S> sc( new S( cs::Info<CS>::make( c.page), si, *em)); bool put=r.chance(1,2);
		note( gd::describe( c)+"\nchunks "+num( k->cuts.size()+1));
		if (setjmp( k->eom)!=0)
		{
			size_t w=complete( o, k->fed); if (k->done!=w) fail( "more input requested after "+num( k->done)+" elements, complete with the "+num( k->fed)+" bytes fed are "+num( w)+": "+at( o, k->done)); count( "requests for the next chunk checked");
			if (k->fed==b.size() && k->next>k->cuts.size()) {sc->getIterator().putInput( k->p, 0, 0);}
			else
			{
				size_t m=k->chunk( b); jmp_buf* e=&k->eom;
				if (put) sc->getIterator().putInput( k->p, m, e); else sc->setSource( SrcIterator( k->p, m, e));
			}
		}
		for (;;)
		{
			Obs x; if (k->done>=o.size()) fail( "more elements than from the whole document"); bool go=item( *sc, x, k->done);
			if (x.type!=o[k->done].type) fail( at( o, k->done)+" reported as "+doc::typeName( x.type));
			++k->done; if (!go) break;
		}
		distinct( hash( b)+hash( k->cuts.data(), k->cuts.size()*sizeof(size_t))+c.in*131);
	}
	template <class CS> void stream( const std::vector<Obs>& o)
	{
		typedef XMLScanner<IStreamIterator,CS,charset::UTF8,std::string> S; const std::string& b=c.bytes; std::unique_ptr<typename S::EntityMap> em( ents<S>()); size_t done=0;
		size_t bs=r.chance(1,3)?1+r.below(4):r.chance(1,2)?1+r.below(64):r.chance(1,2)?b.size()+1:8192; Watch w( b, bs, o, done); unsigned n=r.below(6); for (unsigned i=0;i<n;++i) w.blocks.push_back( 1+r.below( r.chance(1,2)?4:100));
		note( gd::describe( c)+"\nstream with buffer size "+num( bs)+" and "+num( n)+" block sizes");
		S sc( cs::Info<CS>::make( c.page), IStreamIterator( &w, bs), *em);
		for (;;) {Obs x; if (done>=o.size()) fail( "more elements than from the whole document"); bool go=item( sc, x, done); if (x.type!=o[done].type) fail( at( o, done)+" reported as "+doc::typeName( x.type)); ++done; if (!go) break;}
		for (int k=0;k<3;++k) {Obs x; item( sc, x, 0);}
		distinct( hash( b)+bs*7+n+c.in*131);
	}
	template <class CS> void go()
	{
		std::vector<Obs> o, p; bool j=judged; base<CS,charset::UTF8>( o); if (r.chance(1,2)) {judged=j; base<CS,CS>( p); if (p.size()!=o.size()) fail( "number of elements depends on the output character set"); for (size_t i=0;i<o.size();++i) if (o[i].need!=p[i].need) fail( "bytes requested for "+at( o, i)+" depend on the output character set");}
		chunks<CS>( o); stream<CS>( o);
	}
};
// ---- memory: a block of elements repeated
static std::string block( Rng& r, bool balanced, unsigned depth=0)
{
	std::string s; unsigned n=1+r.below(4);
	auto text=[&]() {std::string t; unsigned l=1+r.below( r.chance(1,6)?300:20); while (l--) t+="abcxyz &"[ r.below(7)]; if (r.chance(1,3)) t+="&lt;&#8364;&nbsp;"; return t;};
	while (n--)
	{
		std::string name=std::string( 1+r.below( r.chance(1,8)?100:6), (char)('a'+r.below(26)));
		s+="<"+name; unsigned a=r.below(3); for (unsigned i=0;i<a;++i) s+=" "+std::string( 1+r.below(9), (char)('a'+r.below(26)))+(r.chance(1,2)?"=\""+text()+"\"":" = '"+text()+"'");
		if (balanced && r.chance(1,4)) {s+="/>"; continue;}
		s+=">"; switch (r.below(6)) {case 0: s+="<!-- "+text()+" -->"; break; case 1: s+="<?pi x?>"; break; case 2: s+="<![CDATA["+std::string( r.below(30), 'c')+"]]>"; break; default: s+=text();}
		if (balanced) {if (depth<3 && r.chance(1,2)) s+=block( r, true, depth+1); s+="</"+name+(r.chance(1,5)?" >":">"); if (r.chance(1,4)) s+=text();}
	}
	return s;
}
struct Repeat
{
	jmp_buf eom; const std::string* b; size_t left, cut, at; std::vector<size_t> heap; size_t largest, calls;
};
struct Memory
{
	Rng& r; std::string pre, blk; int page; unsigned reps; bool st;
	void judge( const std::vector<size_t>& heap, size_t largest, size_t extra, const char* what)
	{
		if (heap.size()<8) return; size_t h=heap.size()/2, first=0, second=0; for (size_t i=0;i<heap.size();++i) {size_t& x=i<h?first:second; x=std::max( x, heap[i]);}
		if (second>first+64) fail( std::string( what)+" uses "+num( first)+" bytes in the first and "+num( second)+" in the second half of "+num( heap.size())+" equal parts of a document");
		if (second>16*largest+extra+65536) fail( std::string( what)+" uses "+num( second)+" bytes for elements of at most "+num( largest)+" bytes"); count( "memory measurements", heap.size()); maxv( "bytes used", second);
	}
	template <class CS> void go()
	{
		enc::U up( pre.begin(), pre.end()), ub( blk.begin(), blk.end()); std::string p=enc::enc( up, cs::Info<CS>::id, page), b=enc::enc( ub, cs::Info<CS>::id, page);
		note( std::string("memory, ")+enc::name( cs::Info<CS>::id)+(st?" stream":" chunks")+", "+num( reps)+" times "+show( blk));
		if (st)
		{
			struct Rep :public IStream {const std::string &p,&b; size_t reps,i,at; std::vector<size_t> heap; size_t base; Rep( const std::string& p_, const std::string& b_, size_t n) :p(p_),b(b_),reps(n),i(0),at(0),base(0) {heap.reserve( n+2);} size_t read( void* d, size_t n) {const std::string& s=i?b:p; if (i>reps) return 0; size_t k=std::min( n, s.size()-at); memcpy( d, s.data()+at, k); at+=k; if (at==s.size()) {at=0; ++i; heap.push_back( __sanitizer_get_current_allocated_bytes()-base);} return k;} int errorcode() const {return 0;}};
			typedef XMLScanner<IStreamIterator,CS,charset::UTF8,std::string> S; Rep rep( p, b, reps); rep.base=__sanitizer_get_current_allocated_bytes(); size_t bs=1+r.below( 10000); IStreamIterator it( &rep, bs); S sc( cs::Info<CS>::make( page), it); size_t largest=0;
			for (size_t n=0;;++n) {XB::ElementType t=sc.nextItem(); if (t==XB::Exit) break; if (t==XB::ErrorOccurred) fail( "error scanning the document"); largest=std::max( largest, (size_t)sc.getItemSize()); if (n>(reps+1)*(blk.size()+9)) fail( "does not end");}
			judge( rep.heap, largest, 2*bs, "a scanner of a stream");
		}
		else
		{
			typedef XMLScanner<SrcIterator,CS,charset::UTF8,std::string> S; std::unique_ptr<Repeat> k( new Repeat()); k->b=&p; k->left=reps; k->largest=0; k->calls=0; k->at=0; k->cut=1+r.below( b.size()); k->heap.reserve( reps+2); size_t base=__sanitizer_get_current_allocated_bytes();
			SrcIterator si; si.putInput( p.data(), p.size(), &k->eom); std::unique_ptr<S> sc( new S( cs::Info<CS>::make( page), si));
			if (setjmp( k->eom)!=0)
			{
				if (k->at && k->at<b.size()) {size_t n=std::min( k->cut, b.size()-k->at); sc->getIterator().putInput( b.data()+k->at, n, &k->eom); k->at+=n;}
				else {k->heap.push_back( __sanitizer_get_current_allocated_bytes()-base); if (!k->left) sc->getIterator().putInput( b.data(), 0, 0); else {--k->left; size_t n=std::min( k->cut, b.size()); sc->getIterator().putInput( b.data(), n, &k->eom); k->at=n;}}
			}
			for (;;) {XB::ElementType t=sc->nextItem(); if (t==XB::Exit) break; if (t==XB::ErrorOccurred) fail( "error scanning the document"); k->largest=std::max( k->largest, (size_t)sc->getItemSize()); if (++k->calls>(reps+1)*(blk.size()+9)) fail( "does not end");}
			judge( k->heap, k->largest, 0, "a scanner of chunks");
		}
		distinct( hash( b)+reps+st);
	}
};
struct PrinterMemory
{
	Rng& r; int page;
	template <class CS> void go()
	{
		typedef XMLPrinter<CS,charset::UTF8,std::string> P; unsigned reps=50+r.below( 500), open=r.below(4); std::vector<std::string> names; for (unsigned i=0;i<8;++i) names.push_back( std::string( 1+r.below( r.chance(1,6)?300:8), (char)('a'+i)));
		std::vector<int> ops; unsigned d=0, n=1+r.below(20); bool intag=false; // balanced block
		for (unsigned i=0;i<n;++i) switch (r.below(5)) {case 0: case 1: ops.push_back( (int)r.below(8)); ++d; intag=true; break; case 2: if (d) {ops.push_back( -1); --d; intag=false;} break; case 3: if (intag) ops.push_back( -2); break; default: ops.push_back( -3); intag=false;}
		while (d--) ops.push_back( -1);
		note( std::string("memory of a printer, ")+enc::name( cs::Info<CS>::id)+" "+num( reps)+" times "+num( ops.size())+" calls");
		std::vector<size_t> heap; heap.reserve( reps+1); std::string out; out.reserve( 200000); size_t base=__sanitizer_get_current_allocated_bytes(); P p( cs::Info<CS>::make( page)); size_t depth=0;
		p.printHeader( 0, 0, out); for (unsigned i=0;i<=open;++i) {p.printOpenTag( names[i].data(), names[i].size(), out); depth+=names[i].size()+40;} std::string v="value & <";
		size_t top=0, sum; 
		for (unsigned k=0;k<reps;++k)
		{
			std::vector<int> stack; stack.reserve( 64); sum=depth;
			for (int o:ops) {bool ok=true; if (o>=0) {ok=p.printOpenTag( names[o].data(), names[o].size(), out); stack.push_back( o); sum+=names[o].size()+40; top=std::max( top, sum);} else if (o==-1) {ok=p.printCloseTag( out); sum-=names[ stack.back()].size()+40; stack.pop_back();} else if (o==-2) {ok=p.printAttribute( "a", 1, out) && p.printValue( v.data(), v.size(), out);} else ok=p.printValue( v.data(), v.size(), out); if (!ok) fail( "print call refused"); if (out.size()>100000) out.clear();}
			{std::vector<int>().swap( stack);} heap.push_back( __sanitizer_get_current_allocated_bytes()-base);
		}
		size_t h=heap.size()/2, first=0, second=0; for (size_t i=0;i<heap.size();++i) {size_t& x=i<h?first:second; x=std::max( x, heap[i]);}
		if (second>first+64) fail( "a printer uses "+num( first)+" bytes in the first and "+num( second)+" in the second half of "+num( reps)+" equal balanced parts"); count( "memory measurements of printers", heap.size()); maxv( "bytes used by a printer (without output)", second);
		if (second>16*std::max( top, depth)+65536) fail( "a printer uses "+num( second)+" bytes for open tags of "+num( top)); distinct( hash( ops.data(), ops.size()*sizeof(int))+reps);
	}
};
void run( uint64_t idx, Rng& r)
{
	if (idx%50==7)
	{
		int in=(int)r.below( enc::NofEnc), page=in==enc::ISO?1+(int)r.below(9):1; Memory m={r,r.chance(1,2)?"<?xml version=\"1.0\"?><root>":"<root a='1'>",block( r, r.chance(2,3)),page,200+(unsigned)r.below( 800),r.chance(1,2)};
		cs::visit( in, m); PrinterMemory pm={r,page}; cs::visit( in, pm); return;
	}
	gd::Case c; gd::pickEnc( r, c); doc::Opt o; o.ents=r.chance(1,2)?&gd::ents():0; o.size=2+r.below(16); o.maxdepth=1+r.below(5); o.ctrl=r.chance(1,4); o.unquoted=r.chance(1,4); if (idx%97==0) o.bigtext=doc::Gen::bigLen( r);
	gd::generate( r, c, o); bool mutated=r.chance(1,3); if (mutated) {gd::mutate( r, c.src, 1+r.below(2), c.opt.ok); c.bytes=enc::enc( c.src, c.in, c.page);}
	doc::Evs ref=doc::refscan( c.src, o.ents); std::vector<size_t> offs=enc::offsets( c.src, c.in, c.page); note( gd::describe( c));
	bool agree=!mutated&&ref.size()==c.ev.size(); for (size_t i=0;agree&&i<ref.size();++i) agree=ref[i].type==c.ev[i].type && (!ref[i].haspos||(ref[i].start==c.ev[i].start && ref[i].end==c.ev[i].end));
	Lazy l={c,r,ref,offs,agree||mutated,std::vector<unsigned short>()}; if (r.chance(1,3)) {unsigned n=1+r.below(4); while (n--) l.masks.push_back( (unsigned short)r.below( 0x10000));}
	cs::visit( c.in, l); count( mutated?"malformed documents":"well-formed documents"); if (!agree && !mutated) count( "documents the reference models disagree about (only compared)");
	seen( "input character sets and pages", c.in*16+c.page); if (idx<8 && c.bytes.size()<300) sample( gd::describe( c));
}
}
