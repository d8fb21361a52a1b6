#include "StdAfx.h"
#include "FMath/FMArray.h"
#include "FMath/FMArrayPointer.h"
#include "FMath/FMTree.h"
#include "FUtils/FUObject.h"
#include "FUtils/FUTracker.h"

// Gives the containers elements of their own, so that every member is there to be read.
namespace witness
{
	class Item : public FUTrackable
	{
	public:
		virtual ~Item() {}
	};

	class Held
	{
	public:
		int number;
		Held();
		Held(const Held& other);
		~Held();
		Held& operator=(const Held& other);
		bool operator==(const Held& other) const;
		bool operator<(const Held& other) const;
	};

	struct Plain
	{
		int number;
		bool operator==(const Plain& other) const;
		bool operator<(const Plain& other) const;
	};
}

template class fm::vector<witness::Held>;
template class fm::vector<witness::Plain>;
template class fm::tree<witness::Plain, int>;
template class FUTrackedPtr<witness::Item>;
template class FUTrackedList<witness::Item>;
template class FUObjectRef<witness::Item>;
template class FUObjectContainer<witness::Item>;

void witnesses(FUTrackedList<witness::Item>& a, FUObjectContainer<witness::Item>& b, witness::Item** first, witness::Item** last,
	fm::vector<witness::Held>& c, const witness::Held* cf, const witness::Held* cl, fm::vector<witness::Plain>& d, const witness::Plain* df, const witness::Plain* dl)
{
	a.insert(a.begin(), first, last);
	b.insert(b.begin(), first, last);
	c.insert(c.begin(), cf, cl);
	d.insert(d.begin(), df, dl);
}
