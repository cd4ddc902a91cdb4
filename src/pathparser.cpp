#include "pathparser.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#include "textwolf/xmlpathselect.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include <algorithm>
namespace pp {
using namespace textwolf;
template <class S, class A> struct Impl :Base
{
	enum {aid=0};
	int atmid; typedef XMLPathSelectAutomatonParser<S,A> P; typedef XMLPathSelectAutomaton<A> C; typedef XMLPathSelect<A> Sel; typedef typename C::PathElement PE;
	P p; C c; std::unique_ptr<Sel> sel; std::vector<char*> mem;
	Impl( int id) :atmid(id) {}
	~Impl() {for (char* m:mem) free( m);}
	int add( int type, const std::string& text)
	{
		char* m=(char*)malloc( text.size()?text.size():1); memcpy( m, text.data(), text.size()); int rt=p.addExpression( type, m, text.size()); memset( m, 0x5A, text.size()); free( m); return rt;
	}
	const char* key( const U& u) {std::string s=enc::prn( u, atmid)+std::string( enc::unit( atmid), '\0'); char* m=(char*)malloc( s.size()); memcpy( m, s.data(), s.size()); mem.push_back( m); return m;}
	void define( int type, const std::vector<Call>& calls)
	{
		std::vector<PE> l( 1, *c);
		for (auto& k:calls)
		{
			if (!k.alt.empty())
			{
				std::vector<PE> n; for (auto& a:k.alt) for (auto& e:l) {PE x( e); if (k.kind==Call::Tag) x.selectTag( key( a)); else x.selectAttribute( key( a)); n.push_back( x);}
				l=n; continue;
			}
			for (auto& e:l) switch (k.kind)
			{
				case Call::Follow: e.forAllDescendants(); break;
				case Call::Tag: e.selectTag( k.any?0:key( k.name)); break;
				case Call::Attr: e.selectAttribute( k.any?0:key( k.name)); break;
				case Call::If: e.ifAttribute( key( k.name), key( k.value)); break;
				case Call::Content: e.selectContent(); break;
				case Call::Close: e.selectCloseTag(); break;
				case Call::Index: e.INDEX( k.a); break;
				case Call::Range: e.RANGE( k.a, k.b); break;
				default: e.FROM( k.a);
			}
		}
		for (auto& e:l) e.assignType( type);
	}
	void start( bool parsed) {sel.reset( parsed?new Sel( &p):new Sel( &c));}
	void push( int type, const std::string& k, std::vector<int>& out)
	{
		out.clear(); typename Sel::iterator it=sel->push( (XMLScannerBase::ElementType)type, k), en=sel->end();
		for (;it!=en;++it) {out.push_back( *it); if (out.size()>20000000) vf::fail( "selector does not end");}
		std::sort( out.begin(), out.end());
	}
	std::string dump() {return p.tostring()+"--\n"+c.tostring();}
};
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
typedef charset::SRCCS S;
Base* CAT(make_,SRCCS)( int atm)
{
	switch (atm)
	{
		case enc::UTF8: return new Impl<S,charset::UTF8>( atm);
		case enc::UTF16LE: return new Impl<S,charset::UTF16LE>( atm);
		case enc::UTF16BE: return new Impl<S,charset::UTF16BE>( atm);
		case enc::UCS2LE: return new Impl<S,charset::UCS2LE>( atm);
		case enc::UCS2BE: return new Impl<S,charset::UCS2BE>( atm);
		case enc::UCS4LE: return new Impl<S,charset::UCS4LE>( atm);
		case enc::UCS4BE: return new Impl<S,charset::UCS4BE>( atm);
		default: return new Impl<S,charset::IsoLatin>( atm);
	}
}
}
