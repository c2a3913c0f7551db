// Instantiates the header-only templates of the library so that they are part of the analysed IR.
#include "PrecompiledCore.hpp"
template class jm::Array<jm::Date>;
template class jm::Array<jm::String>;
template class jm::Array<jm::Date*>;
template class jm::Stack<jm::Object>;
template class jm::Stack<jm::String>;
// Inline members that no translation unit of the library uses itself.
namespace probe
{
   [[gnu::used]] bool (jm::Rect::*c1)(double, double) const = &jm::Rect::contains;
   [[gnu::used]] bool (jm::Rect::*c2)(const jm::Point&) const = &jm::Rect::contains;
   [[gnu::used]] bool (jm::Rect::*c3)(const jm::Vertex2&) const = &jm::Rect::contains;
   [[gnu::used]] bool (jm::Rect::*c4)(const jm::Rect&) const = &jm::Rect::intersects;
   [[gnu::used]] void floats(jm::FloatArray& a, uint32 n, float x)
   {
      jm::FloatArray b, c(n), d(a);
      a.Sort(); a.Set(n, a.Get(n) + x); a[a.Length()] = x; a = b;
   }
}
