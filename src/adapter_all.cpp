#define ADAPTER_ALL
#include "adapter.hpp"
namespace scan {
std::string compare( const Res& r, const doc::Evs& ev, int out, const std::vector<size_t>* offs, unsigned unitsize)
{
	std::string head;
	if (r.thrown) return "exception "+r.what;
	if (r.limit) return "does not end: more elements than possible for this input";
	size_t n=std::min( r.ev.size(), ev.size());
	for (size_t i=0;i<n;++i)
	{
		const Item& a=r.ev[i]; const doc::Ev& b=ev[i];
		std::string w;
		if (a.type!=b.type) w="element type";
		else if (b.type==doc::ErrorOccurred) {if (a.err!=b.err) w="error code";}
		else if (!a.masked && a.val!=enc::prn( b.val, out)) w="element text";
		else if (offs && b.haspos && b.type!=doc::Exit && !a.masked && a.tokpos!=(*offs)[ b.start]) w="token position (expected "+vf::num((*offs)[ b.start])+")";
		else if (offs && b.haspos && b.type!=doc::Exit && (a.pos<(*offs)[ b.end] || a.pos>(*offs)[ b.end]+unitsize)) w="scanner position (expected "+vf::num((*offs)[ b.end])+".."+vf::num((*offs)[ b.end]+unitsize)+")";
		if (!w.empty()) return w+" of element "+vf::num(i)+" differs\nreported: "+show( r, i<3?0:i-3, 8)+"\nexpected: "+doc::show( ev, i<3?0:i-3, 8);
	}
	if (r.ev.size()!=ev.size()) return "number of elements differs: reported "+vf::num(r.ev.size())+" expected "+vf::num(ev.size())+"\nreported: ..."+show( r, n<3?0:n-3, 8)+"\nexpected: ..."+doc::show( ev, n<3?0:n-3, 8);
	return "";
}
std::string diff( const Res& a, const Res& b, bool positions)
{
	if (a.thrown!=b.thrown || a.what!=b.what || a.limit!=b.limit) return "exception or termination differs: '"+a.what+"' / '"+b.what+"'";
	size_t n=std::min( a.ev.size(), b.ev.size());
	for (size_t i=0;i<n;++i)
	{
		const Item& x=a.ev[i]; const Item& y=b.ev[i]; std::string w;
		if (x.type!=y.type) w="element type"; else if (x.err!=y.err) w="error code"; else if (!x.masked && !y.masked && x.val!=y.val) w="text"; else if (positions && x.tokpos!=y.tokpos && !x.masked && !y.masked) w="token position"; else if (positions && x.pos!=y.pos) w="scanner position";
		if (!w.empty()) return w+" of element "+vf::num(i)+" differs\nfirst:  "+show( a, i<3?0:i-3, 8)+"\nsecond: "+show( b, i<3?0:i-3, 8);
	}
	if (a.ev.size()!=b.ev.size()) return "number of elements differs: "+vf::num(a.ev.size())+" / "+vf::num(b.ev.size())+"\nfirst:  ..."+show( a, n<3?0:n-3, 8)+"\nsecond: ..."+show( b, n<3?0:n-3, 8);
	return "";
}
}
