// Compiled once per input character set with -DINENC=<name>
#include "textwolf/xmlscanner.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/sourceiterator.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/staticbuffer.hpp"
#include "adapter.hpp"
#include <setjmp.h>
#include <memory>
#include <sstream>
using namespace textwolf;
namespace scan {
#define E_UTF8 1
#define E_UTF16LE 2
#define E_UTF16BE 3
#define E_UCS2LE 4
#define E_UCS2BE 5
#define E_UCS4LE 6
#define E_UCS4BE 7
#define E_ISO 8
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define EID CAT(E_,INENC)
#if EID==E_UTF8
typedef charset::UTF8 InCS;
#elif EID==E_UTF16LE
typedef charset::UTF16LE InCS;
#elif EID==E_UTF16BE
typedef charset::UTF16BE InCS;
#elif EID==E_UCS2LE
typedef charset::UCS2LE InCS;
#elif EID==E_UCS2BE
typedef charset::UCS2BE InCS;
#elif EID==E_UCS4LE
typedef charset::UCS4LE InCS;
#elif EID==E_UCS4BE
typedef charset::UCS4BE InCS;
#else
typedef charset::IsoLatin InCS;
#define IS_ISO 1
#endif
#ifdef IS_ISO
static InCS mkcs( const Req& q) {return InCS( q.inPage);}
#else
static InCS mkcs( const Req&) {return InCS();}
#endif

namespace {
// exact size heap copy, so that the sanitizer sees every access outside
struct Chunk
{
	char* p; size_t n;
	Chunk() :p(0),n(0) {}
	~Chunk() {::free(p);}
	void set( const char* s, size_t len) {char* np=(char*)::malloc( len?len:1); if (len) memcpy( np, s, len); ::free(p); p=np; n=len;}
};
class BlockStream :public IStream
{
public:
	BlockStream( const Req& q, const std::string& d, size_t& reads) :m_q(q),m_d(d),m_pos(0),m_err(0),m_reads(reads) {}
	virtual std::size_t read( void* buf, std::size_t n)
	{
		size_t i=m_reads++;
		if (m_pos >= m_q.failAt) {m_err=(m_q.failWith==2&&m_pos)?0:m_q.failCode; return 0;}
		size_t k=n; if (!m_q.blocks.empty()) k=std::min( k, std::max( (size_t)1, m_q.blocks[ i % m_q.blocks.size()]));
		k = std::min( k, m_d.size()-m_pos); k = std::min( k, m_q.failAt-m_pos);
		memcpy( buf, m_d.data()+m_pos, k); m_pos+=k; if (m_q.failWith && m_pos>=m_q.failAt) m_err=m_q.failCode; return k;
	}
	virtual int errorcode() const {return m_err;}
private:
	const Req& m_q; const std::string& m_d; size_t m_pos; int m_err; size_t& m_reads;
};
// std::streambuf with blocks and a failure
class BlockBuf :public std::streambuf
{
public:
	BlockBuf( const Req& q, const std::string& d, size_t& reads) :m_q(q),m_d(d),m_pos(0),m_reads(reads) {}
protected:
	virtual int_type underflow()
	{
		size_t i=m_reads++;
		if (m_pos >= m_q.failAt) throw std::runtime_error( "stream failure");
		size_t k=m_q.blocks.empty()?4096:std::max( (size_t)1, m_q.blocks[ i % m_q.blocks.size()]);
		k = std::min( k, m_d.size()-m_pos); k = std::min( k, m_q.failAt-m_pos);
		if (!k) return traits_type::eof();
		m_cur = m_d.substr( m_pos, k); m_pos+=k;
		setg( &m_cur[0], &m_cur[0], &m_cur[0]+k);
		return traits_type::to_int_type( m_cur[0]);
	}
private:
	const Req& m_q; const std::string& m_d; size_t m_pos; std::string m_cur; size_t& m_reads;
};

struct Ctx
{
	jmp_buf eom;
	Chunk chunk[2]; int which;
	std::string pad;
	size_t next;	// index of next cut
	size_t calls, limit; int extra; bool started;
	Res res;
	Ctx() :which(0),next(0),calls(0),limit(0),extra(0),started(false) {}
};
template <class B> struct Ovf {static bool get( const B&) {return false;}};
template <> struct Ovf<StaticBuffer> {static bool get( const StaticBuffer& b) {return b.overflow();}};

static bool nullItem( const char* p, const Req& q) {for (unsigned i=0;i<enc::unit( q.out);++i) if (p[i]) return false; return true;}
template <class S>
void grab( S& sc, const Req& q, Ctx& c, int type, unsigned short mask)
{
	c.res.ev.push_back( Item()); Item& it=c.res.ev.back();
	it.type=type; it.err=0; it.overflow=false; it.term=true;
	it.masked=!(mask&(1<<type));
	if (type==XMLScannerBase::ErrorOccurred)
	{
		const char* s=0; it.err=(int)sc.getError(&s); it.val=s?s:""; it.masked=false;
	}
	else if (!it.masked || type==XMLScannerBase::CloseTagIm || type==XMLScannerBase::HeaderEnd || type==XMLScannerBase::DocAttribEnd || type==XMLScannerBase::Exit || type==XMLScannerBase::HeaderStart)
	{
		it.masked=false;
		const char* p=sc.getItemPtr(); size_t n=sc.getItemSize();
		it.val.assign( p, n);
		if (!n) it.term=nullItem( p, q);	// the text of an empty item is a null of the output character set
		if (sc.getItem().size()!=n) vf::fail( "size of getItem() differs from getItemSize()");
		for (size_t k=0;k<n;k+=(n>64?n/16:1)) if (sc.getItem()[k]!=p[k]) vf::fail( "getItem() differs from getItemPtr()");
		it.overflow=Ovf<typename S::OutputBuffer>::get( sc.getItem());
	}
	it.tokpos=sc.getTokenPosition(); it.pos=sc.getPosition();
}
// returns when done
template <class S>
void loop( S& sc, const Req& q, Ctx& c)
{
	if (q.useIterator)
	{
		typename S::iterator it=sc.begin( false), end=sc.end();
		++it;
		while (it!=end)
		{
			c.res.ev.push_back( Item()); Item& e=c.res.ev.back(); e.type=it->type(); e.err=0; e.masked=false; e.overflow=false; e.term=true; e.tokpos=sc.getTokenPosition(); e.pos=sc.getPosition();
			if (std::string(it->name())!=XMLScannerBase::getElementTypeName(it->type())) vf::fail( "name() of the iterator element does not match its type");
			if (it->type()==XMLScannerBase::ErrorOccurred) {const char* s=0; e.err=(int)sc.getError(&s); e.val=it->content()?it->content():""; if (it->valid()||!it->error()||e.val!=it->error()||!s||e.val!=s) vf::fail( "error of the iterator differs from the error of the scanner"); return;}
			if (!it->valid()||it->error()) vf::fail( "regular element of the iterator not valid");
			e.val.assign( it->content(), it->size()); if (!it->size()) e.term=nullItem( it->content(), q);
			if (++c.calls > c.limit) {c.res.limit=true; return;}
			if (c.calls&1) ++it; else it++;
		}
		c.res.ev.push_back( Item()); Item& e=c.res.ev.back(); e.type=it->type(); e.err=0; e.masked=false; e.overflow=false; e.term=true; e.tokpos=sc.getTokenPosition(); e.pos=sc.getPosition();
		if (it->valid()) vf::fail( "the end element of the iterator is valid");
		if (it->type()==XMLScannerBase::Exit) e.val.assign( it->content(), it->size());
		return;
	}
	for (;;)
	{
		unsigned short mask = q.masks.empty()?0xFFFF:q.masks[ c.calls % q.masks.size()];
		int t=(int)sc.nextItem( mask);
		grab( sc, q, c, t, mask);
		if (++c.calls > c.limit) {c.res.limit=true; return;}
		if (t==XMLScannerBase::Exit || t==XMLScannerBase::ErrorOccurred)
		{
			if (t!=XMLScannerBase::ErrorOccurred && c.extra==0 && !q.extraCalls) return;
			if (++c.extra > q.extraCalls) return;
		}
	}
}
#define GUARDED( CODE) \
	try { CODE } \
	catch (const textwolf::exception& e) {c->res.thrown=true; c->res.what=e.what(); c->res.cause=e.cause;} \
	catch (const std::exception& e) {c->res.thrown=true; c->res.what=e.what(); c->res.cause=-1;}

template <class S> void makeEnts( const Req& q, std::unique_ptr<typename S::EntityMap>& em)
{
	if (!q.ents) return;
	em.reset( new typename S::EntityMap());
	for (size_t i=0;i<q.ents->size();++i) (*em)[ (*q.ents)[i].first.c_str()] = (*q.ents)[i].second;
}

template <class S>
S* construct( const Req& q, const typename std::remove_reference<decltype(std::declval<S>().getIterator())>::type& it, const typename S::EntityMap* em)
{
	int k=q.ctor;
#ifdef IS_ISO
	if (q.inPage!=1 && (k==1||k==3)) k=0;
#endif
	if (em && k>=2) k=0;
	S* rt=0;
	switch (k)
	{
		case 1: return em? new S( it, *em) : new S( it);
		case 2: rt=new S( mkcs(q)); rt->setSource( it); return rt;
		case 3: rt=new S(); rt->setSource( it); return rt;
	}
	return em? new S( mkcs(q), it, *em) : new S( mkcs(q), it);
}

template <class S> void chunked( const Req& q, const std::string& b, Ctx* c)
{
	std::unique_ptr<typename S::EntityMap> em; makeEnts<S>( q, em);
	size_t first = (q.src==WHOLE||q.cuts.empty())?b.size():q.cuts[0];
	bool more = q.src!=WHOLE && (!q.cuts.empty() || q.finalEmpty);
	c->chunk[0].set( b.data(), first);
	SrcIterator si; si.putInput( c->chunk[0].p, first, more?&c->eom:0);
	std::unique_ptr<S> sc( construct<S>( q, si, em.get()));
	c->res.nchunks=1; c->next=0;
	bool cuts = q.src!=WHOLE;
	GUARDED(
		if (cuts && setjmp( c->eom)!=0)
		{
			size_t n=q.cuts.size();
			size_t beg = c->next<n?q.cuts[c->next]:b.size();
			size_t end = c->next+1<n?q.cuts[c->next+1]:b.size();
			++c->next; ++c->res.nchunks;
			bool last = q.finalEmpty? (c->next>n) : (c->next>=n);
			if (c->res.nchunks > n+3) vf::fail( "more input requested after the last chunk");
			int nw=c->which^1;
			c->chunk[ nw].set( b.data()+beg, end-beg);
			if (q.src==SETSOURCE) sc->setSource( SrcIterator( c->chunk[nw].p, end-beg, last?0:&c->eom));
			else sc->getIterator().putInput( c->chunk[nw].p, end-beg, last?0:&c->eom);
			c->chunk[ c->which].set( "", 0); c->which=nw;
		}
		loop( *sc, q, *c);
	)
}
template <class S> void cstr( const Req& q, const std::string& b, Ctx* c)
{
	std::unique_ptr<typename S::EntityMap> em; makeEnts<S>( q, em);
	c->chunk[0].set( b.c_str(), b.size()+(q.src==CSTR?1:0));
	GUARDED(
		c->pad.assign( b.data(), b.size());
		std::unique_ptr<S> sc( construct<S>( q, q.src==STDSTRING?CStringIterator( c->pad):q.src==CSTR?CStringIterator( c->chunk[0].p):CStringIterator( c->chunk[0].p, b.size()), em.get()));
		loop( *sc, q, *c);
	)
}
template <class S> void charp( const Req& q, const std::string& b, Ctx* c)
{
	std::unique_ptr<typename S::EntityMap> em; makeEnts<S>( q, em);
	c->pad = b; c->pad.append( 64, '\0'); // the iterator has to deliver null at the end
	c->chunk[0].set( c->pad.data(), c->pad.size());
	GUARDED(
		std::unique_ptr<S> sc( construct<S>( q, c->chunk[0].p, em.get()));
		loop( *sc, q, *c);
	)
}
template <class S> void istr( const Req& q, const std::string& b, Ctx* c)
{
	std::unique_ptr<typename S::EntityMap> em; makeEnts<S>( q, em);
	GUARDED(
		if (q.src==ISTREAM)
		{
			BlockStream is( q, b, c->res.nreads);
			std::unique_ptr<S> sc( construct<S>( q, IStreamIterator( &is, q.bufsize), em.get()));
			loop( *sc, q, *c);
		}
		else
		{
			BlockBuf bb( q, b, c->res.nreads); std::istream st( &bb); StdInputStream is( st); if (is.errorcode()) vf::fail( "error code of a stream not read yet");
			std::unique_ptr<S> sc( construct<S>( q, IStreamIterator( &is, q.bufsize), em.get()));
			loop( *sc, q, *c);
		}
	)
}
template <class CS, class B> void dispatch( const Req& q, const std::string& b, Ctx* c)
{
	switch (q.src)
	{
		case WHOLE: case SETSOURCE: case PUTINPUT: chunked<XMLScanner<SrcIterator,InCS,CS,B> >( q, b, c); return;
		case CSTR: case CSTRSIZE: case STDSTRING: cstr<XMLScanner<CStringIterator,InCS,CS,B> >( q, b, c); return;
		case ISTREAM: case STDISTREAM: istr<XMLScanner<IStreamIterator,InCS,CS,B> >( q, b, c); return;
		case CHARPTR: charp<XMLScanner<char*,InCS,CS,B> >( q, b, c); return;
	}
	abort();
}
#ifndef ADAPTER_LIGHT
// scanner with a static buffer has no default constructible buffer: derive one
struct SBuf :public StaticBuffer { static size_t cap; SBuf() :StaticBuffer( cap) {} };
size_t SBuf::cap=0;
template <> struct Ovf<SBuf> {static bool get( const SBuf& b) {return b.overflow();}};
#endif
}
#define FN CAT(run_,INENC)
Res FN( const Req& q_, const std::string& bytes)
{
	Req q( q_); if (q.ctor<0) q.ctor=(int)(vf::hash( bytes)>>7&3);
	std::unique_ptr<Ctx> c( new Ctx());
	c->limit = 2*bytes.size()+200+q.extraCalls;
	if (q.buf==STRING)
	{
		switch (q.out)
		{
			case enc::UTF8: dispatch<charset::UTF8,std::string>( q, bytes, c.get()); break;
#ifndef ADAPTER_LIGHT
#define CH(ID,CS) case enc::ID: chunked<XMLScanner<SrcIterator,InCS,charset::CS,std::string> >( q, bytes, c.get()); break;
			CH(UTF16LE,UTF16LE) CH(UTF16BE,UTF16BE) CH(UCS2LE,UCS2LE) CH(UCS2BE,UCS2BE) CH(UCS4LE,UCS4LE) CH(UCS4BE,UCS4BE) CH(ISO,IsoLatin)
#endif
			default: abort();
		}
	}
#ifndef ADAPTER_LIGHT
	else if (q.buf==STATIC) {SBuf::cap=q.cap; chunked<XMLScanner<SrcIterator,InCS,charset::UTF8,SBuf> >( q, bytes, c.get());}
	else {chunked<XMLScanner<SrcIterator,InCS,charset::UTF8,std::vector<char> > >( q, bytes, c.get());}
#endif
	return std::move( c->res);
}
}
