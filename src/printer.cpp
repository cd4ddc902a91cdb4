// compiled once per output character set with -DOUTENC=<class>
#include "textwolf/xmlprinter.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/ostreamoutput.hpp"
#include "textwolf/staticbuffer.hpp"
#include "printer.hpp"
#include <sstream>
using namespace textwolf;
namespace prn {
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
typedef charset::OUTENC OutCS;
namespace {
template <class T> struct Mk {static T make( int) {return T();}};
template <> struct Mk<charset::IsoLatin> {static charset::IsoLatin make( int p) {return charset::IsoLatin( p);}};
// exact size copies of the arguments on the heap
struct Arg {char* p; size_t n; Arg( const std::string& s) :p((char*)malloc(s.size()?s.size():1)),n(s.size()) {memcpy( p, s.data(), n);} ~Arg() {free(p);}};
// the state in the order of the model: before the header, content, attribute without value, open tag
template <class X> int stateOf( const X& x) {switch (x.state()) {case X::Init: return 0; case X::Content: return 1; case X::TagAttribute: return 2; case X::TagElement: return 3;} return -1;}
template <class App, class B> struct Impl :public P
{
	XMLPrinter<OutCS,App,B> p; B b;
	Impl( int page, bool sub) :p( Mk<OutCS>::make( page), sub) {}
	Impl( const Impl& o) :p(o.p),b(o.b) {}
	virtual bool header( const char* e, const char* s) {return p.printHeader( e, s, b);}
	virtual bool doctype( const char* r, const char* u, const char* s) {return p.printDoctype( r, u, s, b);}
	virtual bool open( const std::string& n) {Arg a(n); return p.printOpenTag( a.p, a.n, b);}
	virtual bool attr( const std::string& n) {Arg a(n); return p.printAttribute( a.p, a.n, b);}
	virtual bool value( const std::string& n) {Arg a(n); return p.printValue( a.p, a.n, b);}
	virtual bool close() {return p.printCloseTag( b);}
	virtual bool exitctx() {return p.exitTagContext( b);}
	virtual void reset( bool sub) {p.reset( sub); b.clear();}
	virtual int state() {return stateOf( p);}
	virtual const char* err() {return p.lasterror();}
	virtual std::string out() {return std::string( b.begin(), b.end());}
	virtual P* copy( bool assign) {if (!assign) return new Impl( *this); Impl* r=new Impl( 1, false); r->p.reset( true); {B x; r->p.printOpenTag( "xyz", 3, x);} r->p=p; r->b=b; return r;}
	virtual void assign( P* o) {Impl* x=(Impl*)o; p=x->p; b=x->b;}
};
// the same calls with all kinds of buffers
template <class App> struct Multi :public P
{
	Impl<App,std::string> s; std::ostringstream ss; OstreamOutput os; XMLPrinter<OutCS,App,OstreamOutput> po; size_t cap; StaticBuffer sb; XMLPrinter<OutCS,App,StaticBuffer> pb;
	Multi( int page, bool sub) :s( page, sub),os( &ss),po( Mk<OutCS>::make( page), sub),cap( page==1?900:1500),sb( cap),pb( Mk<OutCS>::make( page), sub) {}
	Multi( const Multi& o) :s(o.s),os(&ss),po(o.po),cap(o.cap),sb(o.sb),pb(o.pb) {ss << o.ss.str();}
	bool same( bool a, bool b, bool c)
	{
		if (a!=b || a!=c) vf::fail( "the same call returns something else when printing to a stream or a static buffer");
		if (s.err()!=po.lasterror() || s.err()!=pb.lasterror()) vf::fail( "the same call has another last error when printing to a stream or a static buffer");
		if (s.state()!=stateOf( po) || s.state()!=stateOf( pb)) vf::fail( "the same call leads to another state when printing to a stream or a static buffer");
		return a;
	}
	virtual bool header( const char* e, const char* t) {bool a=s.header( e, t); return same( a, po.printHeader( e, t, os), pb.printHeader( e, t, sb));}
	virtual bool doctype( const char* r, const char* u, const char* t) {bool a=s.doctype( r, u, t); return same( a, po.printDoctype( r, u, t, os), pb.printDoctype( r, u, t, sb));}
	virtual bool open( const std::string& n) {Arg x(n); bool a=s.open( n); return same( a, po.printOpenTag( x.p, x.n, os), pb.printOpenTag( x.p, x.n, sb));}
	virtual bool attr( const std::string& n) {Arg x(n); bool a=s.attr( n); return same( a, po.printAttribute( x.p, x.n, os), pb.printAttribute( x.p, x.n, sb));}
	virtual bool value( const std::string& n) {Arg x(n); bool a=s.value( n); return same( a, po.printValue( x.p, x.n, os), pb.printValue( x.p, x.n, sb));}
	virtual bool close() {bool a=s.close(); return same( a, po.printCloseTag( os), pb.printCloseTag( sb));}
	virtual bool exitctx() {bool a=s.exitctx(); return same( a, po.exitTagContext( os), pb.exitTagContext( sb));}
	virtual void reset( bool sub) {out(); s.reset( sub); po.reset( sub); pb.reset( sub); ss.str(""); sb.clear();}
	virtual int state() {return s.state();}
	virtual const char* err() {return s.err();}
	virtual std::string out()
	{
		std::string o=s.out();
		if (ss.str()!=o) vf::fail( "printed to a stream: '"+vf::show( ss.str())+"'\nto a string: '"+vf::show(o)+"'");
		if (sb.overflow()!=(o.size()>cap) || sb.size()!=std::min( o.size(), cap) || memcmp( sb.ptr(), o.data(), sb.size())) vf::fail( "printed to a static buffer of "+vf::num(cap)+" bytes: '"+vf::show( std::string( sb.ptr(), sb.size()))+"'\nto a string: '"+vf::show(o)+"'");
		vf::count( o.size()>cap?"static buffers overflown":"outputs compared to stream and static buffer");
		return o;
	}
	virtual P* copy( bool) {return new Multi( *this);}
	virtual void assign( P*) {}
};
template <class B> P* mk( int page, int app, bool sub)
{
	switch (app)
	{
		case enc::UTF8: return new Impl<charset::UTF8,B>( page, sub);
		case enc::UTF16LE: return new Impl<charset::UTF16LE,B>( page, sub);
		case enc::UTF16BE: return new Impl<charset::UTF16BE,B>( page, sub);
		case enc::UCS2LE: return new Impl<charset::UCS2LE,B>( page, sub);
		case enc::UCS2BE: return new Impl<charset::UCS2BE,B>( page, sub);
		case enc::UCS4LE: return new Impl<charset::UCS4LE,B>( page, sub);
		case enc::UCS4BE: return new Impl<charset::UCS4BE,B>( page, sub);
		default: return new Impl<charset::IsoLatin,B>( page, sub);
	}
}
}
P* CAT(make_,OUTENC)( int page, int app, bool sub, int buf)
{
	if (buf==MULTI) switch (app)
	{
		case enc::UTF8: return new Multi<charset::UTF8>( page, sub);
		case enc::UCS2LE: return new Multi<charset::UCS2LE>( page, sub);
		case enc::ISO: return new Multi<charset::IsoLatin>( page, sub);
	}
	return buf==VECTOR? mk<std::vector<char> >( page, app, sub) : mk<std::string>( page, app, sub);
}
#ifdef PRINTER_MAKE
P* make( int out, int page, int app, bool sub, int buf)
{
	switch (out)
	{
		case enc::UTF8: return make_UTF8( page, app, sub, buf);
		case enc::UTF16LE: return make_UTF16LE( page, app, sub, buf);
		case enc::UTF16BE: return make_UTF16BE( page, app, sub, buf);
		case enc::UCS2LE: return make_UCS2LE( page, app, sub, buf);
		case enc::UCS2BE: return make_UCS2BE( page, app, sub, buf);
		case enc::UCS4LE: return make_UCS4LE( page, app, sub, buf);
		case enc::UCS4BE: return make_UCS4BE( page, app, sub, buf);
		default: return make_IsoLatin( page, app, sub, buf);
	}
}
#endif
}
