// C10: reported positions are the byte offsets of the elements in the source
#include "gendoc.hpp"
#include <memory>
#include "textwolf/sourceiterator.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
namespace vf {
const Check check={"C10",120000,1500000,"distinct (document, character set, source iterator, chunking) tuples with at least 3 elements",0,30};
void init() { modes::detect( false); }
// the position functions of the source iterators, alone
struct Blocks :public textwolf::IStream
{
	std::string s; size_t at; Rng r; Blocks( const std::string& s_, uint64_t x) :s(s_),at(0),r(x) {}
	size_t read( void* b, size_t n) {size_t m=s.size()-at; if (m>n) m=n; if (m>1 && r.chance(1,2)) m=1+r.below( m); memcpy( b, s.data()+at, m); at+=m; return m;}
	int errorcode() const {return 0;}
};
static void iterators( Rng& r)
{
	using namespace textwolf; std::string s; unsigned n=r.below( 300); for (unsigned i=0;i<n;++i) s+=(char)(1+r.below(255)); note( "iterators over "+num(n)+" bytes"); count( "iterator walks");
	// iterators of no source are at the end
	{
		std::unique_ptr<SrcIterator> a( new SrcIterator()); std::unique_ptr<CStringIterator> b( new CStringIterator()); std::unique_ptr<IStreamIterator> c( new IStreamIterator());
		if (**a || !a->endOfChunk() || a->getPosition() || a->position() || *a-*a) fail( "default constructed source iterator");
		if (**b || b->pos() || *b-*b) fail( "default constructed string iterator");
		if (**c || c->position() || *c-*c) fail( "default constructed stream iterator");
		IStreamIterator d( *c), e; e=*c; ++d; if (*d||*e) fail( "copy of a default constructed stream iterator");
		CStringIterator x( "abc"), y( "abcd"); if (x-y || y-x) fail( "difference of iterators on different strings");
		count( "default constructed iterators");
	}
	// source iterator with chunks
	{
		SrcIterator it; size_t base=0; bool first=true; unsigned chunks=1+r.below(5);
		for (unsigned c=0;c<chunks;++c)
		{
			size_t m=c+1<chunks?r.below( s.size()-base+1):s.size()-base; char* p=(char*)malloc( m?m:1); memcpy( p, s.data()+base, m);
			if (first && r.chance(1,2)) it=SrcIterator( p, m); else it.putInput( p, m); first=false;
			std::vector<SrcIterator> old( 1, it);
			for (size_t i=0;;++i)
			{
				if (it.position()!=base+i) fail( "position of the source iterator is "+num(it.position())+" instead of "+num(base+i));
				if (it.getPosition()!=i) fail( "position in the chunk is "+num(it.getPosition())+" instead of "+num(i));
				if (it.endOfChunk()!=(i==m)) fail( "end of chunk reported wrong at "+num(i)+" of "+num(m));
				if (i<m && *it!=s[base+i]) fail( "wrong byte"); if (i==m && *it!=0) fail( "no null at the end");
				{size_t k=r.below( i+1); if (it-old[k]!=i-k) fail( "difference of source iterators "+num( it-old[k])+" instead of "+num(i-k)); bool th=false; if (k<i) {try {size_t d=old[k]-it; (void)d;} catch (const exception& e) {th=e.cause==throws_exception::IllegalParam;} if (!th) fail( "negative difference of source iterators without exception");}}
				count( "iterator positions compared"); if (i==m) break;
				++it; old.push_back( it);
			}
			if (c+1<chunks && m) {SrcIterator last( it); std::string o="other"; it.putInput( o.data(), 0); bool th=false; try {size_t d=it-last; (void)d;} catch (const exception&) {th=true;} if (!th) fail( "difference of iterators in different chunks without exception");}
			base+=m; free( p);
		}
	}
	{
		unsigned bs=1+r.below( r.chance(1,2)?8:400); Blocks st( s, r.u64()); IStreamIterator it( &st, bs), start( it); size_t i=0;
		for (;i<s.size();++i)
		{
			if (it.position()!=i || it-start!=(int)i || start-it!=-(int)i) fail( "position "+num(it.position())+" or difference "+num((uint64_t)(int64_t)(it-start))+" of the stream iterator instead of "+num(i));
			if (*it!=s[i]) fail( "wrong byte from stream"); ++it; count( "iterator positions compared");
		}
		if (it.position()!=i || *it!=0) fail( "stream iterator at its end");
	}
	{
		char* p=(char*)malloc( s.size()+1); memcpy( p, s.c_str(), s.size()+1); CStringIterator it( p, (unsigned)s.size()), start( it); if (r.chance(1,2)) it=CStringIterator( p);
		for (size_t i=0;i<s.size();++i) {if (it.pos()!=i || it-start!=(int)i || start-it!=-(int)i || *it!=s[i]) fail( "position "+num(it.pos())+" of the string iterator instead of "+num(i)); ++it; count( "iterator positions compared");}
		if (it.pos()!=s.size()||*it!=0) fail( "string iterator at its end");
		for (int k=0;k<10;++k) {unsigned q=r.below( s.size()+3); it.pos( q); unsigned e=q<s.size()?q:(unsigned)s.size(); if (it.pos()!=e || *it!=(e<s.size()?s[e]:0)) fail( "string iterator set to "+num(q)+" is at "+num(it.pos()));}
		free( p);
	}
}
void run( uint64_t idx, Rng& r)
{
	if (idx%40==3) iterators( r);
	gd::Case c; gd::pickEnc( r, c);
	doc::Opt o; o.ents=r.chance(1,2)?&gd::ents():0; o.size=2+r.below(16); o.maxdepth=1+r.below(5); o.ctrl=r.chance(1,4); o.unquoted=r.chance(1,4);
	if (idx%97==0) o.bigtext=doc::Gen::bigLen( r);
	gd::generate( r, c, o);
	doc::Evs ref=doc::refscan( c.src, o.ents);
	bool agree=ref.size()==c.ev.size(); for (size_t i=0;agree&&i<ref.size();++i) agree=ref[i].type==c.ev[i].type && (!ref[i].haspos||(ref[i].start==c.ev[i].start && ref[i].end==c.ev[i].end));
	if (!agree) {count( "documents the reference models disagree about (not judged)"); return;}
	bool mutated=r.chance(1,4);
	if (mutated) {gd::mutate( r, c.src, 1+r.below(2), c.opt.ok); c.bytes=enc::enc( c.src, c.in, c.page); ref=doc::refscan( c.src, o.ents);}
	std::vector<size_t> offs=enc::offsets( c.src, c.in, c.page);
	const std::string& b=c.bytes; unsigned u=enc::unit( c.in);
	for (int k=0;k<3;++k)
	{
		scan::Req q; q.in=c.in; q.inPage=c.page; q.out=k==0?c.in:c.out; q.ents=o.ents;
		switch (r.below(8))
		{
			case 0: q.src=scan::WHOLE; break;
			case 1: q.src=r.chance(1,2)?scan::CSTRSIZE:scan::STDSTRING; q.out=enc::UTF8; break;
			case 2: q.src=(b.find('\0')==std::string::npos)?scan::CSTR:scan::CHARPTR; q.out=enc::UTF8; break;
			case 3: q.src=scan::ISTREAM; q.out=enc::UTF8; q.bufsize=1+r.below( r.chance(1,2)?20:9000); for (int i=0;i<5;++i) q.blocks.push_back( 1+r.below( r.chance(1,2)?7:500)); break;
			case 4: q.src=scan::STDISTREAM; q.out=enc::UTF8; q.bufsize=1+r.below( 300); break;
			default:
				q.src=scan::PUTINPUT; q.finalEmpty=r.chance(1,3);
				{size_t i=0; size_t m=r.chance(1,3)?3:100; for (;;) {i+=r.below(m); if (i>=b.size()) break; q.cuts.push_back(i); if (q.cuts.size()>5000) break;}}
		}
		note( gd::describe( c)+"\nsource iterator "+scan::srcName( q.src));
		scan::Res x=scan::run( q, b);
		if (mutated && x.ev.size()>ref.size()) fail( "more elements than in the document");
		if (!mutated)
		{
			std::string d;
			if (x.thrown||x.limit) fail( "scan did not end regularly "+x.what);
			if (x.ev.size()!=ref.size()) {count( "documents with another structure than generated (see C05)"); continue;}
			bool same=true; for (size_t i=0;same&&i<ref.size();++i) same=x.ev[i].type==ref[i].type;
			if (!same) {count( "documents with another structure than generated (see C05)"); continue;}
		}
		size_t last=0;
		for (size_t i=0;i<x.ev.size();++i)
		{
			const scan::Item& e=x.ev[i];
			auto at=[&](){return std::string(" of element ")+num(i)+" ("+doc::typeName(e.type)+" '"+show(e.val,60)+"')\n"+scan::show( x, i<3?0:i-3, 6);};
			if (e.pos<last) fail( "position decreases at"+at());
			last=e.pos;
			if (e.pos > b.size()+u) fail( "position "+num(e.pos)+" behind the end of the document ("+num(b.size())+")"+at());
			if (e.type==doc::ErrorOccurred) continue;
			if (e.type==doc::Exit) {if (e.pos<offs[ref[i].start] || e.pos>offs[ref[i].start]+u) fail( "position "+num(e.pos)+" at the end of the document, size "+num(b.size())+at()); continue;}
			if (e.type!=ref[i].type || e.type==doc::HeaderStart) {if (e.type!=ref[i].type) break; continue;}
			if (e.tokpos!=offs[ ref[i].start]) fail( "token position "+num(e.tokpos)+" instead of "+num( offs[ ref[i].start])+at());
			if (e.pos<offs[ ref[i].end] || e.pos>offs[ ref[i].end]+u) fail( "scanner position "+num(e.pos)+" not in "+num( offs[ ref[i].end])+".."+num( offs[ ref[i].end]+u)+at());
			count( "positions compared", 2);
			seen( "element types", e.type);
		}
		count( q.src==scan::PUTINPUT?"scans with putInput chunks":q.src==scan::ISTREAM||q.src==scan::STDISTREAM?"scans with streams":"scans with strings and chunks");
		if (x.ev.size()>=3) distinct( hash( b)+q.src*7919+hash( q.cuts.data(), q.cuts.size()*sizeof(size_t))+c.in*131+q.bufsize);
	}
	count( mutated?"malformed documents":"well-formed documents"); maxv( "document bytes", b.size());
	seen( "input character sets and pages", c.in*16+c.page);
	if (idx<8 && b.size()<300) sample( gd::describe(c));
}
}
