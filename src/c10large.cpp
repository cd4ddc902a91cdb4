// C10 in documents larger than 4 GB, and the position and difference functions of the iterators.
// Built without sanitizers (speed). The input is the same block delivered again and again, no memory is needed for it.
#include "vf.hpp"
#include "enc.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/sourceiterator.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace vf {
const Check check={"C10",8,12,"distinct (iterator, character set, way to the position) tuples behind the first 4 GB of a document",8,840};
using namespace textwolf;
void init() {}
namespace {
const uint64_t G4=1ull<<32;
// the end of the document: positions of the elements relative to its begin
const char* const TAIL="<a x=\"1\">hello</a><b/> wo<![CDATA[]]>";
struct Exp {int type; const char* val; size_t tok;};
// XMLScannerBase element types; position of the token
template <class S> void checkTail( S& sc, uint64_t base, unsigned u, const char* what, size_t skipped)
{
	const Exp exp[]={{S::OpenTag,"a",1},{S::TagAttribName,"x",3},{S::TagAttribValue,"1",6},{S::Content,"hello",9},{S::CloseTag,"a",16},{S::OpenTag,"b",19},{S::CloseTagIm,"",20}};
	uint64_t last=0;
	for (size_t i=0;i<sizeof(exp)/sizeof(*exp);++i)
	{
		typename S::ElementType t=sc.nextItem();
		if (i==0 && skipped) {while (t==S::Content||t==S::CloseTag) t=sc.nextItem();}
		std::string v( sc.getItemPtr(), sc.getItemSize());
		std::string at=std::string(" at element ")+num(i)+" "+S::getElementTypeName(t)+" '"+show(v)+"', "+what;
		if (t!=exp[i].type || (t!=S::CloseTagIm && v!=exp[i].val)) fail( "wrong element"+at);
		uint64_t tp=sc.getTokenPosition(), p=sc.getPosition();
		if (t!=S::CloseTagIm && tp!=base+(uint64_t)exp[i].tok*u) fail( "token position "+num(tp)+" instead of "+num( base+exp[i].tok*u)+at);
		if (p<last || p<tp || p<base+exp[i].tok*u || p>base+(exp[i].tok+8)*u) fail( "scanner position "+num(p)+" of a token at "+num(base+exp[i].tok*u)+at);
		last=p; count( "positions compared behind 4 GB", 2);
	}
}
// a stream that delivers filler blocks, then the tail
struct Stream :public IStream
{
	std::string block, tail; uint64_t n, k, done; size_t boff, off;
	Stream( const std::string& b, uint64_t n_, const std::string& t) :block(b),tail(t),n(n_),k(0),done(0),boff(0),off(0) {}
	size_t read( void* buf, size_t size)
	{
		if (k<n)
		{
			size_t m=block.size()-boff; if (m>size) m=size; memcpy( buf, block.data()+boff, m); boff+=m; done+=m;
			if (boff==block.size()) {boff=0; ++k;}
			return m;
		}
		size_t m=tail.size()-off; if (m>size) m=size; memcpy( buf, tail.data()+off, m); off+=m; done+=m; return m;
	}
	int errorcode() const {return 0;}
};
std::string filler( size_t n)	// closed elements only: every block can follow any other
{
	std::string s; int i=0; while (s.size()+300<n) {s+="<t q='"; s+=num(i++); s+="'>text<u/>more text of the element, a few words long, so that scanning is not too slow. abcdefghijklmnopqrstuvwxyz</t>\n";}
	s+="<t>"; while (s.size()+4<n) s+='.'; s+="</t>"; return s;
}
// the same bytes, n times, in one address range
const char* repeated( const std::string& block, uint64_t n, const std::string& tail, uint64_t& size)
{
	int fd=syscall( SYS_memfd_create, "c10", 0); if (fd<0) return 0;
	size_t bs=block.size();	// multiple of the page size
	std::string end=tail; end.resize( 4096, '\0');
	if (ftruncate( fd, bs+4096) || pwrite( fd, block.data(), bs, 0)!=(ssize_t)bs || pwrite( fd, end.data(), 4096, bs)!=4096) return 0;
	char* p=(char*)mmap( 0, bs*n+4096, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (p==MAP_FAILED) return 0;
	for (uint64_t i=0;i<n;++i) if (mmap( p+i*bs, bs, PROT_READ, MAP_SHARED|MAP_FIXED, fd, 0)==MAP_FAILED) return 0;
	if (mmap( p+n*bs, 4096, PROT_READ, MAP_SHARED|MAP_FIXED, fd, bs)==MAP_FAILED) return 0;
	close( fd); size=bs*n+tail.size(); return p;
}
}
template <class CS> static void advanced( int in, bool stream, Rng& r)
{
	unsigned u=enc::unit( in);
	std::string tail=enc::enc( enc::asc( TAIL), in, 1);
	uint64_t skip=G4+r.below(1u<<29); skip-=skip%u; if (r.chance(1,4)) skip=G4-u*r.below(40);
	std::string block( 1u<<24, '\0');
	uint64_t n=skip/block.size(), rest=skip%block.size();
	if (stream)
	{
		Stream st( block, n, block.substr( 0, rest)+tail);
		IStreamIterator it( &st, block.size());
		for (uint64_t i=0;i<skip;++i) ++it;
		if (it.position()!=skip) fail( "position of the stream iterator "+num(it.position())+" after "+num(skip)+" increments");
		XMLScanner<IStreamIterator,CS,charset::UTF8,std::string> sc( it); checkTail( sc, skip, u, "stream iterator advanced", 0);
		count( "stream iterators advanced over 4 GB");
	}
	else
	{
		jmp_buf eom; SrcIterator it;
		for (uint64_t k=0;k<=n;++k)
		{
			uint64_t m=k<n?block.size():rest; std::string last;
			if (k<n) it.putInput( block.data(), m, &eom);
			else {last=block.substr( 0, rest)+tail; it.putInput( last.data(), last.size());}
			for (uint64_t i=0;i<m;++i) ++it;
			if (it.position()!=k*block.size()+m) fail( "position of the source iterator "+num(it.position())+" instead of "+num(k*block.size()+m));
			if (it.getPosition()!=m) fail( "position in the chunk "+num(it.getPosition())+" instead of "+num(m));
			if (k==n) {XMLScanner<SrcIterator,CS,charset::UTF8,std::string> sc( it); checkTail( sc, skip, u, "source iterator advanced", 0);}
		}
		count( "source iterators advanced over 4 GB");
	}
	distinct( mix( skip, in*2+stream));
}
// really scanned: kind 0 putInput, 1 stream, 2 memory
static void scanned( int kind, Rng& r)
{
	std::string block=filler( 1u<<20), tail=TAIL; uint64_t n=4096+1+r.below(16);
	uint64_t size=n*block.size();
	if (kind==0)
	{
		typedef XMLScanner<SrcIterator,charset::UTF8,charset::UTF8,std::string> S; S sc; jmp_buf eom; volatile uint64_t k=0; uint64_t last=0;
		if (setjmp( eom)) ++k;
		if (k<n) {sc.getIterator().putInput( block.data(), block.size(), &eom);
			for (;;) {S::ElementType t=sc.nextItem(); uint64_t tp=sc.getTokenPosition(), p=sc.getPosition();
				if (t==S::ErrorOccurred||t==S::Exit) fail( std::string("scan ends: ")+sc.getItemPtr());
				// the elements of the block are reported within the block (the last ones may come with the next)
				if (tp<last || p>(k+1)*block.size() || p+300<k*block.size() || tp>p) fail( "position "+num(tp)+"/"+num(p)+" while scanning block "+num(k)+" of "+num(block.size()));
				last=tp;}}
		sc.getIterator().putInput( tail.data(), tail.size()); checkTail( sc, size, 1, "document scanned in chunks", 1);
	}
	else if (kind==1)
	{
		typedef XMLScanner<IStreamIterator,charset::UTF8,charset::UTF8,std::string> S; Stream st( block, n, tail); S sc( IStreamIterator( &st, block.size())); uint64_t last=0;
		for (;;) {S::ElementType t=sc.nextItem(); uint64_t tp=sc.getTokenPosition(), p=sc.getPosition();
			if (t==S::ErrorOccurred||t==S::Exit) fail( std::string("scan ends: ")+sc.getItemPtr());
			if (tp<last || p<tp || p>st.done) fail( "position "+num(tp)+"/"+num(p)+" after "+num(st.done)+" bytes read"); last=tp;
			if (tp>=size-8) break;}
		checkTail( sc, size, 1, "document scanned as stream", 1);
	}
	else
	{
		uint64_t sz; const char* p=repeated( block, n, tail, sz); if (!p) {count( "no memory mapping of the size"); return;}
		typedef XMLScanner<char*,charset::UTF8,charset::UTF8,std::string> S; S sc( const_cast<char*>(p)); uint64_t last=0;
		for (;;) {S::ElementType t=sc.nextItem(); uint64_t tp=sc.getTokenPosition();
			if (t==S::ErrorOccurred||t==S::Exit) fail( std::string("scan ends: ")+sc.getItemPtr());
			if (tp<last || tp>size) fail( "position "+num(tp)+" after "+num(last)); last=tp; if (tp>=size-8) break;}
		checkTail( sc, size, 1, "document scanned in memory", 1);
		munmap( (void*)p, n*block.size()+4096);
	}
	static const char* nm[]={"documents over 4 GB scanned in chunks","documents over 4 GB scanned as stream","documents over 4 GB scanned in memory"}; count( nm[kind]);
	distinct( mix( n, 100+kind));
}
void run( uint64_t idx, Rng& r)
{
	note( "document larger than 4 GB, case "+num(idx));
	switch (idx)
	{
		case 0: advanced<charset::UTF8>( enc::UTF8, false, r); return;
		case 1: advanced<charset::UTF8>( enc::UTF8, true, r); return;
		case 2: advanced<charset::UTF16LE>( enc::UTF16LE, false, r); return;
		case 3: advanced<charset::UCS2BE>( enc::UCS2BE, true, r); return;
		case 4: advanced<charset::UCS4BE>( enc::UCS4BE, false, r); return;
		case 5: advanced<charset::IsoLatin>( enc::ISO, false, r); return;
		case 6: advanced<charset::UTF16BE>( enc::UTF16BE, false, r); return;
		case 7: advanced<charset::UCS4LE>( enc::UCS4LE, true, r); return;
		default: scanned( (idx-8)%3, r);
	}
}
}
