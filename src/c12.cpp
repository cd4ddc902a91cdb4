// C12: all input sources deliver the same document, read errors are never silent
#include "gendoc.hpp"
#include "textwolf/exception.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/sourceiterator.hpp"
#include <fstream>
#include <memory>
namespace vf {
const Check check={"C12",80000,1500000,"distinct (document, source, buffer size, block sizes, failure point) tuples",0,30};
void init() { modes::detect( false); }
// a real read error of the operating system: the stream is a directory
static void directory()
{
	using namespace textwolf; typedef XMLScanner<IStreamIterator,charset::UTF8,charset::UTF8,std::string> S;
	std::ifstream f( "."); if (!f.is_open()) return;
	bool thrown=false;
	try {StdInputStream st( f); IStreamIterator it( &st); S sc( it); for (int k=0;k<5;++k) {S::ElementType t=sc.nextItem(); if (t==S::Exit||t==S::ErrorOccurred) break;}}
	catch (const textwolf::exception& e) {thrown=true; if (e.cause!=throws_exception::FileReadError) fail( std::string("reading a directory: read error reported as ")+e.what());}
	if (!thrown) fail( "reading a directory ends as an empty document"); count( "read errors of the operating system");
}
// a scanner without source is one of an empty document
template <class It> static void nosource( const char* what)
{
	using namespace textwolf; typedef XMLScanner<It,charset::UTF8,charset::UTF8,std::string> S; typedef XMLScanner<CStringIterator,charset::UTF8,charset::UTF8,std::string> E;
	std::unique_ptr<S> a( new S()), b( new S( charset::UTF8())); E e( CStringIterator( "", 0)); int n=e.nextItem();
	if (a->nextItem()!=n || b->nextItem()!=n || a->getError()!=e.getError() || a->getTokenPosition()!=e.getTokenPosition()) fail( std::string("scanner without source on ")+what); count( "scanners without source");
}
void run( uint64_t idx, Rng& r)
{
	if (idx%500==3) {nosource<textwolf::CStringIterator>( "a string iterator"); nosource<textwolf::IStreamIterator>( "a stream iterator");}
	if (idx%200==7) directory();
	gd::Case c; gd::pickEnc( r, c); c.out=enc::UTF8;
	doc::Opt o; o.ents=r.chance(1,2)?&gd::ents():0; o.size=2+r.below(12); o.maxdepth=1+r.below(4); o.ctrl=r.chance(1,4); o.wellformed=false;
	if (idx%101==0) o.bigtext=doc::Gen::bigLen( r);
	gd::generate( r, c, o);
	if (r.chance(1,4)) {gd::mutate( r, c.src, 1+r.below(2), c.opt.ok); c.mutated=true; c.bytes=enc::enc( c.src, c.in, c.page);}
	const std::string& b=c.bytes;
	note( gd::describe( c));
	scan::Req q; q.in=c.in; q.inPage=c.page; q.out=c.out; q.ents=o.ents;
	scan::Res base=scan::run( q, b);
	if (base.limit||base.thrown) fail( "does not end "+base.what);
	for (int k=0;k<9;++k)
	{
		scan::Req m=q; bool ffail=false;
		static const int srcs[]={scan::CSTR,scan::CSTRSIZE,scan::CHARPTR,scan::ISTREAM,scan::STDISTREAM,scan::ISTREAM,scan::STDISTREAM,scan::PUTINPUT,scan::STDSTRING};
		m.src=srcs[k]; m.ctor=r.chance(1,2)?0:r.below(4);
		if (m.src==scan::CSTR && b.find('\0')!=std::string::npos) continue;
		if (m.src==scan::ISTREAM || m.src==scan::STDISTREAM)
		{
			switch (r.below(4)) {case 0: m.bufsize=1+r.below(4); break; case 1: m.bufsize=1+r.below(64); break; case 2: m.bufsize=8192; break; default: m.bufsize=b.size()+r.below(3); if (m.bufsize>1) --m.bufsize; if (!m.bufsize) m.bufsize=1;}
			unsigned n=r.below(6); for (unsigned i=0;i<n;++i) m.blocks.push_back( 1+r.below( r.chance(1,2)?5:400));
			if (k>=5) {ffail=true; m.failAt=r.chance(1,6)?b.size():r.chance(1,6)?0:r.below( b.size()+1); static const int codes[]={5,1,9,28,-1}; m.failCode=codes[r.below(5)]; if (m.src==scan::ISTREAM && m.failAt && r.chance(1,2)) {m.failWith=1+r.below(2); if (r.chance(1,2)) m.failAt=r.below( 2)?b.size():b.size()-b.size()/8; if (!m.failAt) m.failWith=0;}}
		}
		else if (m.src==scan::PUTINPUT) {size_t i=0; for (;;) {i+=r.below(40); if (i>=b.size()||m.cuts.size()>2000) break; m.cuts.push_back(i);} m.finalEmpty=r.chance(1,2);}
		std::string bs; for (auto x:m.blocks) bs+=" "+num(x);
		note( gd::describe( c)+"\nconstructor "+num(m.ctor)+" source "+scan::srcName(m.src)+" bufsize "+num(m.bufsize)+" blocks"+bs+(m.failWith?" error reported with the last data":"")+(ffail?" fails after "+num(m.failAt)+" of "+num(b.size())+" bytes":""));
		scan::Res x=scan::run( m, b);
		if (x.limit) fail( "does not end");
		if (!ffail)
		{
			std::string d=scan::diff( base, x, true);
			if (!d.empty()) fail( "differs from the result for the whole chunk: "+d);
			count( "sources compared");
		}
		else
		{
			if (x.thrown)
			{
				if (x.cause!=(int)textwolf::throws_exception::FileReadError) fail( "read error reported as "+x.what);
				// what was reported before is the begin of the correct result
				if (x.ev.size()>base.ev.size()) fail( "more elements than without failure");
				for (size_t i=0;i<x.ev.size();++i) if (x.ev[i].type!=base.ev[i].type || x.ev[i].val!=base.ev[i].val || x.ev[i].err!=base.ev[i].err) fail( "element "+num(i)+" before the read error is wrong\nwithout failure: "+scan::show( base, i<3?0:i-3,6)+"\nwith failure: "+scan::show( x, i<3?0:i-3, 6));
				if (!x.ev.empty() && x.ev.back().type==doc::Exit) fail( "end of document reported before the read error");
				count( "read errors reported as exception");
			}
			else
			{
				// only possible if the document ended (error, null) before the failure
				std::string d=scan::diff( base, x, true); if (!d.empty()) fail( "read error is silent: "+d);
				if (base.ev.back().type==doc::Exit && c.src.find( U'\0')==doc::U::npos) fail( "read error at byte "+num(m.failAt)+" was taken as the end of the document\n"+scan::show( x, x.ev.size()<4?0:x.ev.size()-4));
				count( "failures behind the end of scanning");
			}
			seen( "failure points", m.failAt);
		}
		static const char* ctors[]={"constructed with character set and source","constructed with source","constructed with character set","default constructed"}; count( ctors[ m.ctor]);
		count( "stream reads", x.nreads);
		distinct( hash( b)+m.src*7919+m.bufsize*104729+m.failAt*31+hash( m.blocks.data(), m.blocks.size()*sizeof(size_t)));
	}
	maxv( "document bytes", b.size()); count( c.mutated?"malformed documents":"well-formed documents");
	if (idx<8 && b.size()<300) sample( gd::describe(c));
}
}
