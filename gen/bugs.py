DOC = '''class Doc : public Document { public: bool saveDocument() override { return true; } bool loadDocument() override { return true; } Status initNewDocument(Preferences*) override { return Status::eOK; } };
'''
bug('V03-cofactor', 'V03', [('src/core/Matrix.cpp', 'data[9] = (a11 * a24 * a43 + a13 * a21 * a44', 'data[9] = (a11 * a24 * a43 + a13 * a22 * a44')],
'''int main() {
   double v[16] = {2,0,1,0, 1,3,0,1, 4,0,2,1, 0,5,1,3};
   Matrix a(4, 4); for(int i = 0; i < 16; i++) a.set(i / 4, i % 4, v[i]);
   Matrix b = a; CHECK(b.inverse() == Status::eOK); Matrix c = a * b;
   for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) CHECK(std::fabs(c.get(i, j) - (i == j)) < 1e-9);
   return 0; }
''', 'a 4x4 matrix with a non-zero off-diagonal element in the second row', 'one element of the 4x4 inverse uses a wrong factor')
bug('V02-union', 'V02', [('src/core/Rect.cpp', '   if(left() > rect.left())setLeft(rect.left());\n   if(top() > rect.top())setTop(rect.top());\n   if(right() < rect.right())setRight(rect.right());', '   if(right() < rect.right())setRight(rect.right());\n   else if(left() > rect.left())setLeft(rect.left());\n   if(top() > rect.top())setTop(rect.top());')],
'''int main() {
   Rect a(2, 2, 1, 1), b(0, 0, 10, 10); a.unionWith(b);
   CHECK(a.left() == 0 && a.right() == 10 && a.top() == 0 && a.bottom() == 10);
   return 0; }
''', 'the other rectangle exceeds this one on the left and on the right', 'union of rectangles does not contain the other rectangle')
bug('V04-divfloor', 'V04', [('src/core/Math.cpp', '''   int64 q = x / y;
   int64 r = x % y;
   if((r != 0) && ((r < 0) != (y < 0))) --q;
   return q;''', '''   int64 q = x / y;
   if(((x < 0) != (y < 0)) && (q * y > x || y < 0)) --q;
   return q;''')], '''int main() {
   CHECK(divFloor(-7, 2) == -4 && divFloor(7, -2) == -4 && divFloor(-8, 2) == -4);
   CHECK(divFloor(8, -2) == -4 && divFloor(0, -3) == 0);
   return 0; }
''', 'an exact division by a negative number', 'division rounding down is one too small')
bug('S01-int64', 'S01', [('src/core/Serializer.cpp', '''int64 jm::deserializeLEInt64(uint8* buffer, uint32 offset)
{
   int64 p1 = deserializeLEUInt32(buffer, offset + 4);
   int64 p2 = deserializeLEUInt32(buffer, offset);
''', '''int64 jm::deserializeLEInt64(uint8* buffer, uint32 offset)
{
   int64 p1 = deserializeLEInt32(buffer, offset + 4);
   int64 p2 = deserializeLEInt32(buffer, offset);
''')], '''int main() {
   uint8 b[8] = {0, 0, 0, 0x80, 1, 0, 0, 0};
   CHECK(deserializeLEInt64(b, 0) == 0x180000000LL);
   return 0; }
''', 'a value whose bit 31 is set', 'the lower half is sign extended over the upper half')
bug('U01-objref', 'U01', [('src/core/UndoChange.cpp', '''   if(!mSwapped)
   {
      mValue2 = tmpValue;
      if(mValue2 != nullptr)mValue2->retain();
      mSwapped = true;
   }
''', '''   if(!mSwapped && tmpValue != mValue1)
   {
      mValue2 = tmpValue;
      if(mValue2 != nullptr)mValue2->retain();
   }
   mSwapped = true;
''')], DOC + '''int main() {
   UndoManager um; um.setActive(true);
   Object* owner = new Object(); Object* o = new Object(); Object* slot = o; Object* other = new Object();
   um.registerChange(owner, &slot);
   um.close(); um.undo();             // both sides hold o
   slot = other; um.redo();
   uint32 c = o->referenceCount();
   CHECK(slot == o); CHECK(c == 3);
   return 0; }
''', 'the variable holds the recorded object at the first undo', 'the record does not keep the redo side of the reference')
bug('U02-order', 'U02', [('src/core/EditableObject.cpp', '''Status EditableObject::setMember(int16* pointer, int16 value)
{
   if(value == *pointer)return Status::eNotChanged;

   UndoManager* um = nullptr;
   if(mDocument != nullptr)um = mDocument->undoManager();
   if(um != nullptr)um->registerChange(this, pointer);
   *pointer = value;
   return Status::eOK;''', '''Status EditableObject::setMember(int16* pointer, int16 value)
{
   if(value == *pointer)return Status::eNotChanged;

   *pointer = value;
   if(mDocument == nullptr)return Status::eOK;
   UndoManager* um = mDocument->undoManager();
   if(um != nullptr)um->registerChange(this, pointer);
   return Status::eOK;''')], DOC + '''class E : public EditableObject { public: E(Document* d) : EditableObject(d) { v = 3; } int16 v; Status set(int16 d) { return setMember(&v, d); } };
int main() {
   Doc d; E e(&d); e.set(4); CHECK(d.undoManager() != nullptr);
   d.undoManager()->close(); d.undoManager()->undo(); CHECK(e.v == 3);
   return 0; }
''', 'undoing the change of a 16 bit member', 'the new value is recorded instead of the old one')
bug('U03-redo', 'U03', [('src/core/UndoManager.cpp', '''      mTransaction->add(change);
   }
   else
   {
      mCurrent->add(change);

      clearRedoStack();
      mOpen = true;''', '''      mTransaction->add(change);
   }
   else
   {
      if(!mOpen && mUndoStack != nullptr)clearRedoStack();
      mCurrent->add(change);
      mOpen = true;''')], '''int main() {
   UndoManager um; um.setActive(true); Object* o = new Object(); int32 a = 1;
   um.registerChange(o, &a); a = 2; um.close(); um.undo();
   um.registerChange(o, &a); a = 7; um.close();
   CHECK(um.redoCount() == 0); CHECK(!um.redo()); CHECK(a == 7);
   return 0; }
''', 'a change recorded after every step was undone', 'the redo history survives a new change')
bug('U04-addbefore', 'U04', [('src/core/LinkedList.cpp', '''      if(listStart == addBeforeThis)um->registerChange(this, (Object* *)&listStart);
      um->registerChange(addBeforeThis''', '''      um->registerChange(addBeforeThis'''), ('src/core/LinkedList.cpp', '''   if(listStart == addBeforeThis)listStart = itemToAdd;
''', '''   if(listStart == addBeforeThis)
   {
      listStart = itemToAdd;
      if(um != nullptr)um->registerChange(this, (Object* *)&listStart);
   }
''')], '''int main() {
   UndoManager um; um.setActive(true); LinkedList l(nullptr); Object *a = new Object(), *b = new Object();
   l.add(a, nullptr); l.addBefore(a, b, &um); CHECK(l.first() == b);
   um.close(); um.undo(); CHECK(l.first() == a);
   return 0; }
''', 'undo of an insertion before the first element', 'the start of the list is recorded after it was changed')
bug('V01-null', 'V01', [('src/core/Vertex3.cpp', '''   return (isEqual(x, 0.0) && isEqual(y, 0.0) && isEqual(z, 0.0));''', '''   return isEqual(x + y + z, 0.0) && isEqual(x, y) && isEqual(y * y, x * z);''')], '''int main() {
   CHECK(Vertex3(0, 0, 0).isNull()); CHECK(!Vertex3(RESABS * 100, RESABS * 100, -RESABS * 200).isNull());
   return 0; }
''', 'components that cancel in the sum', 'a vector that is not null counts as null')
bug('T01-lastskip', 'T01', [('src/core/String.cpp', '''   for(int64 a = fromIndex; a >= 0; a--)
   {
      bool found = true;
      for(int64 b = 0 ; b < str.mStrLength; b++)
      {
         if(mValue[a + b] != str.mValue[b])
         {
            found = false;
            break;''', '''   for(int64 a = fromIndex; a >= 0; a--)
   {
      bool found = true;
      for(int64 b = 0 ; b < str.mStrLength; b++)
      {
         if(mValue[a + b] != str.mValue[b])
         {
            if(b > 1)a--;
            found = false;
            break;''')], '''int main() {
   String s = "xaaab"; String p = "aaa";
   CHECK(s.lastIndexOf(p) == 1); CHECK(s.lastIndexOf("ab", 100) == 3);
   CHECK(String("aaab").lastIndexOf("aaa") == 0);
   return 0; }
''', 'a search string with a repeated prefix of two characters directly in front of a partial match', 'the last position of a string skips a match that overlaps a partial match')
bug('T01-hash', 'T01', [('src/core/String.cpp', '''   uint32 hash = 0;
   for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
   mHash = (int32) hash;
   return mHash;
''', '''   uint32 hash = 0;
   for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + (mValue[a].unicode() & 0x7fff);
   mHash = (int32) hash;
   return mHash;
''')], '''int main() {
   uint16 w[2] = {0x8041, 0x42}; String a(w, 2);
   CHECK(a.hashCode() == (int32)(31u * 0x8041u + 0x42u));
   String b(w, 2); CHECK(b.constHashCode() == a.hashCode());
   return 0; }
''', 'a string with a character above U+7FFF', 'hash code and const hash code of equal strings differ')
bug('T02-insertend', 'T02', [('src/core/String.cpp', '''   checkCapacity(1);
   for(int64 a = mStrLength; a > index; a--)mValue[a] = mValue[a - 1];
   mValue[index] = character;
   mStrLength++;
   mHash = 0;
''', '''   checkCapacity(1);
   if(index == mStrLength)
   {
      mValue[mStrLength++] = character;
      return;
   }
   for(int64 a = mStrLength; a > index; a--)mValue[a] = mValue[a - 1];
   mValue[index] = character;
   mStrLength++;
   mHash = 0;
''')], '''int main() {
   String a = "ab"; a.hashCode(); a.insert(2, Char('c'));
   String b = "abc"; CHECK(a == b); CHECK(a.hashCode() == b.hashCode());
   return 0; }
''', 'the hash code was asked for before a character is inserted at the end', 'a string returns the hash code it had before the edit')
bug('T03-fromhex', 'T03', [('src/core/Integer.cpp', "else if(c >= 'a' && c <= 'f')", "else if(c >= 'a' && c < 'f')")], '''int main() {
   CHECK(Integer::fromHex("ff") == 255 && Integer::fromHex("FF") == 255 && Integer::fromHex("1f") == 31);
   return 0; }
''', 'the lower case digit f', 'hexadecimal text with a lower case f is not converted')
bug('T03-valueof', 'T03', [('src/core/String.cpp', '''   while(number > 0)
   {
      int64 digit = number % 10;
      number = number / 10;
      ret.append(Char(digit + '0'));
   }

   // Reverse digits
   int64 cnt = ret.size() / 2;
   for(int64 a = 0; a < cnt; a++)
   {
      Char s1 = ret.charAt(a);
      Char s2 = ret.charAt(ret.size() - 1 - a);
      ret.setCharAt(a, s2);
      ret.setCharAt(ret.size() - 1 - a, s1);
   }
   return ret;
}

String String::valueOf(int32''', '''   for(int64 rest = (int64)number; rest != 0; rest = (int64)((uint64)rest / 10))
   {
      int64 digit = rest % 10;
      if(digit < 0)digit += 10;
      ret.append(Char(digit + '0'));
   }

   // Reverse digits
   int64 cnt = ret.size() / 2;
   for(int64 a = 0; a < cnt; a++)
   {
      Char s1 = ret.charAt(a);
      Char s2 = ret.charAt(ret.size() - 1 - a);
      ret.setCharAt(a, s2);
      ret.setCharAt(ret.size() - 1 - a, s1);
   }
   return ret;
}

String String::valueOf(int32''')], '''int main() {
   CHECK(String::valueOf((uint64)1234567890) == "1234567890");
   CHECK(String::valueOf((uint64)18446744073709551615ULL) == "18446744073709551615");
   CHECK(String::valueOf((uint64)9223372036854775807ULL) == "9223372036854775807");
   return 0; }
''', 'an unsigned number of at least 2^63', 'the last digit of large unsigned numbers is wrong')
bug('T04-lower', 'T04', [('src/core/Character.cpp', 'if(mChar >= 0xC0 && mChar <= 0xD6)return true;', 'if(mChar >= 0xC0 && mChar <= 0xD8)return true;'), ('src/core/Character.cpp', 'if(mChar >= 0xD8 && mChar <= 0xDE)return true;', 'if(mChar > 0xD8 && mChar <= 0xDE)return true;')], '''int main() {
   CHECK(!Char(0x00D7).isUpperCase() && !Char(0x00D7).isLetter()); CHECK(Char(0x00D8).isUpperCase());
   return 0; }
''', 'the multiplication sign', 'the multiplication sign counts as an upper case letter')
bug('C01-roman', 'C01', [('src/core/MacRomanDecoder.cpp', '''CharArray MacRomanDecoder::decode(const char* cstring)
{
   // Determine length
   uint32 length = 0;
   while(cstring[length] != 0)length++;

   CharArray array = CharArray(length);

   for(uint32 a = 0; a < length; a++)
   {
      array.buffer[a] = decodeCharacter(cstring[a]);
   }
''', '''CharArray MacRomanDecoder::decode(const char* cstring)
{
   // Determine length
   uint32 length = 0;
   while(cstring[length] != 0)length++;

   CharArray array = CharArray(length);

   for(uint32 a = 0; a < length; a++)
   {
      // Shortcut for everything up to the no-break space
      if((uint8)cstring[a] <= 0xCA && (uint8)cstring[a] >= 0xCA)array.buffer[a] = Char(' ');
      else array.buffer[a] = decodeCharacter(cstring[a]);
   }
''')], '''int main() {
   char t[2] = {(char)0xCA, 0};
   MacRomanDecoder d; CharArray c = d.decode(t);
   CHECK(c.length == 1 && c.buffer[0].unicode() == 0x00A0);
   return 0; }
''', 'a text with the byte CA (no-break space)', 'one byte of the MacRoman code page decodes to another character')
bug('C01-win', 'C01', [('src/core/Windows1252Decoder.cpp', '''         case 0x017E:
            cstring[a] = (uint8)0x9E;
            break;

         case 0x0178:''', '''         case 0x017E:
            cstring[a] = (uint8)0x9E;

         case 0x0178:''')], '''int main() {
   Windows1252Decoder d; uint16 w[1] = {0x017E}; CharArray c(1); memcpy((void*)c.buffer, w, 2);
   ByteArray b = d.encode(c); CHECK(b.size() == 1 && b.get(0) == 0x9E);
   return 0; }
''', 'a text with the character U+017E', 'one character of Windows-1252 is encoded as another one')
bug('C02-second', 'C02', [('src/core/UTF8Decoder.cpp', 'd = (cstring[cntC + 1] & 0x3F) << 6;', 'd = (cstring[cntC + 1] & 0x1F) << 6;')], '''int main() {
   UTF8Decoder d; CharArray c = d.decode("\\xE0\\xA4\\x85\\xE2\\x82\\xAC");
   CHECK(c.length == 2 && c.buffer[0].unicode() == 0x0905 && c.buffer[1].unicode() == 0x20AC);
   return 0; }
''', 'a character of three bytes with bit 11 set', 'bit 11 of three-byte sequences is lost')
bug('C02-mark', 'C02', [('src/core/UTF16Decoder.cpp', '''   else if(cstring[0] == static_cast<char>(0xFF) &&
           cstring[1] == static_cast<char>(0xFE))
   {
      cntC = 2;
      start = 2;
   }''', '''   else if(cstring[0] == static_cast<char>(0xFF) &&
           cstring[1] == static_cast<char>(0xFE))
   {
      cntC = 2;
   }''')], '''int main() {
   char t[8] = {(char)0xFF, (char)0xFE, 65, 0, 66, 0, 0, 0};
   UTF16Decoder d(false); CharArray c = d.decode(t);
   CHECK(c.length == 2 && c.buffer[0].unicode() == 65 && c.buffer[1].unicode() == 66);
   return 0; }
''', 'a little endian text that begins with a byte order mark', 'the byte order mark is decoded and the last character is lost')
bug('H01-unlink', 'H01', [('src/core/Hashtable.cpp', '''      prev = e;
      e = e->next;''', '''      if(prev == nullptr)prev = e;
      e = e->next;''')], '''int main() {
   Hashtable t; static int v[3]; const char* k[3] = {"a", "h", "o"};
   for(int i = 0; i < 3; i++)t.put(k[i], &v[i]);
   CHECK(t.remove("a") == &v[0]);
   CHECK(t.get("h") == &v[1] && t.get("o") == &v[2] && t.size() == 2);
   return 0; }
''', 'three keys in one bucket, the one inserted first is removed', 'the entry between the first and the removed one is lost')
bug('H01-grow', 'H01', [('src/core/Hashtable.cpp', '''      rehash();
      index = (hash & 0x7FFFFFFF) % mArrLength;''', '''      rehash();
      if(mDataLength < 8)index = (hash & 0x7FFFFFFF) % mArrLength;''')], '''int main() {
   Hashtable t; static int v[200]; const char* c = "abcdefghijklmnopqrstuvwxyz";
   int n = 0;
   for(int i = 0; i < 6; i++)for(int j = 0; j < 20; j++) { char k[3] = {c[i], c[j], 0}; t.put(k, &v[n++]); }
   n = 0;
   for(int i = 0; i < 6; i++)for(int j = 0; j < 20; j++) { char k[3] = {c[i], c[j], 0}; CHECK(t.get(k) == &v[n++]); }
   return 0; }
''', 'an insertion that makes a table of more than seven entries grow', 'the new entry is put into the bucket of the old size and is not found')
bug('H02-sort', 'H02', [('src/core/ByteArray.cpp', 'newn = i + 1;', 'newn = i;')], '''int main() {
   ByteArray b({3, 2, 1, 0}); b.sort();
   for(int i = 0; i < 4; i++)CHECK(b.get(i) == i);
   return 0; }
''', 'an array whose last exchange of a pass moves a value that has to move further', 'the pass after it stops too early')
bug('H02-equal', 'H02', [('src/core/ByteArray.cpp', 'if(a1.size() != a2.size())return false;', 'if(a1.size() > a2.size())return false;')], '''int main() {
   ByteArray a({1, 2}), b({1, 2, 3}); CHECK(!(a == b)); CHECK(!(b == a)); CHECK(a == a);
   return 0; }
''', 'comparison with a longer array that begins with the same bytes', 'a prefix is equal to the array')
bug('H03-remove', 'H03', [('src/core/StringList.cpp', "         index--;\n", "")], '''int main() {
   StringList l; l << "a" << "b" << "b" << "c"; l.remove("b");
   CHECK(l.size() == 2 && l.get(0) == "a" && l.get(1) == "c");
   return 0; }
''', 'a list in which two neighbours are equal to the removed string', 'the second of two equal neighbours stays in the list')
bug('H03-join', 'H03', [('src/core/StringList.cpp', "if(index > 0)result << divider;", "if(result.size() > 0)result << divider;")], '''int main() {
   StringList l; l << "" << "a" << ""; CHECK(l.join(',') == ",a,");
   return 0; }
''', 'a list that begins with an empty string', 'dividers after leading empty elements are lost')
bug('H03-array', 'H03', [('include/core/Array.h', "                  float a2 = mData[j];\n                  if(a1 > a2)\n                  {\n                     // Swap\n                     float tmp = mData[i];\n                     mData[i] = mData[j];\n                     mData[j] = tmp;\n\n                     newn = i + 1;", "                  float a2 = mData[j];\n                  if(a1 > a2)\n                  {\n                     // Swap\n                     float tmp = mData[i];\n                     mData[i] = mData[j];\n                     mData[j] = tmp;\n\n                     newn = i;")], '''int main() {
   FloatArray a({3, 2, 1, 0}); a.Sort();
   for(int i = 0; i < 4; i++)CHECK(a.Get(i) == i);
   return 0; }
''', 'an array whose last exchange of a pass moves a value that has to move further', 'the pass after it stops too early and the array is not sorted')

bug('C03-second', 'C03', [('src/core/Base64.cpp', 'c2 |= (b2 >> 4) & 0x0f;', 'c2 |= (b2 >> 4) & 0x07;')], '''int main() {
   uint8 d[3] = {0, 0xFF, 0}; int64 n = 3; uint8* e = Base64::encode(d, n);
   CHECK(n == 4); CHECK(memcmp(e, "AP8A", 4) == 0);
   return 0; }
''', 'a byte of 128 and more as the second one of a group', 'its highest bit is lost in the encoded text')
bug('C03-table', 'C03', [('src/core/CRC.cpp', '0xB981, 0x7940, 0xBB01', '0xB981, 0x7904, 0xBB01')], '''int main() {
   for(int i = 0; i < 256; i++) { uint16 c = i; for(int j = 0; j < 8; j++)c = (c & 1) ? (c >> 1) ^ 0xA001 : c >> 1; uint8 b = i; CHECK(CRC::crc8(0, &b, 1) == c); }
   return 0; }
''', 'data whose running checksum reaches one particular entry of the table', 'the checksum is not the CRC of the data')
bug('C03-url', 'C03', [('src/core/String.cpp', "            ret.append('2');\n            ret.append('B');", "            ret.append('2');\n            ret.append('C');")], '''int main() {
   CHECK(URLDecode(URLEncode("a+b c%d")) == "a+b c%d");
   return 0; }
''', 'a plus sign in the text', 'it comes back as a comma')

SAX = '''class P : public SAXParser { public: String log;
   void startElement(const String&, const String& l, const String&, const SAXAttributes& a) override { log << "<" << l; for(uint32 i = 0; i < a.count(); i++)log << "|" << a.localName(i) << "|" << a.value(i); log << ">"; }
   void endElement(const String&, const String& l, const String&) override { log << "</" << l << ">"; }
   void characters(const String& c) override { log << c; } };
'''
bug('D01-opener', 'D01', [('src/core/SAXParser.cpp', 'else if(inValue == true && opener == c)', 'else if(inValue == true)')], SAX + '''int main() {
   P p; p.parse("<a k=\\"it's > that\\"/>"); CHECK(p.log == "<a|k|it's > that></a>");
   return 0; }
''', 'an attribute value with an apostrophe and a closing bracket', 'the tag ends inside of the value')
bug('D01-late', 'D01', [('src/core/XMLWriter.cpp', 'if(mOpenElements->size() == 0 || mOpenElements->top().hasContent == true)', 'if(mOpenElements->size() == 0 || mOpenElements->top().hasCharacters == true)')], SAX + '''int main() {
   uint8 mem[200]; memset(mem, 0, 200); MemoryStream m(mem, 200); XMLWriter w(&m);
   w.startElement("a"); w.startElement("b"); w.endElement(); w.writeAttribute("k", String("v")); w.endElement();
   String s((const char*)mem);
   CHECK(s.indexOf("<b/> k=") < 0);
   return 0; }
''', 'an attribute written after a child element but before any text', 'the attribute becomes text of the element')
bug('D01-space', 'D01', [('src/core/SAXParser.cpp', "token.insert(0, beginWhitespaces.charAt(beginWhitespaces.size() - 1));", "token.insert(0, ' ');")], SAX + '''int main() {
   P p; p.parse("<a>\tx</a>"); CHECK(p.log == "<a>\tx</a>");
   return 0; }
''', 'text that begins with white space other than a blank', 'the first white space character becomes a blank')
bug('D01-index', 'D01', [('src/core/SAXAttributes.cpp', "if(mNames->at(a).equals(qName))return a;", "if(mNames->at(a).endsWith(qName))return a;")], SAX + '''int main() {
   SAXAttributes a; a.addAttribute("", "max", "max", "1"); a.addAttribute("", "x", "x", "2");
   CHECK(a.value(String("x")) == "2");
   return 0; }
''', 'an attribute whose name ends with the name asked for stands before it', 'the value of another attribute is returned')

bug('D02-century', 'D02', [('src/core/Date.cpp', 'if(y % 400 != 0)return 365;', 'if(y % 200 != 0)return 365;')], '''int main() {
   CHECK(Date(2200, 2, 1).time() == Date(2200, 0, 1).time() + 59 * 86400000LL);      // no leap year
   return 0; }
''', 'a date in a year divisible by 200 but not by 400', 'the year counts as a leap year for months and days')
bug('D02-floor', 'D02', [('src/core/Date.cpp', '- divFloor(y - 1901, 100)', '- (y - 1901) / 100')], '''int main() {
   Date d(-2240524800000 + 364 * 86400000LL); CHECK(d.year() == 1899); CHECK(d.month() == 11); CHECK(d.date() == 31);
   return 0; }
''', 'a date in or before 1900', 'the days of these years are off by one')
bug('D02-format', 'D02', [('src/core/DateFormatter.cpp', '''            int64 d = date.hours();
            if(d < 10)value.append('0');''', '''            int64 d = date.hours();
            if(d < 9)value.append('0');''')], '''int main() {
   CHECK(DateFormatter::format("HH:mm", Date(2020, 0, 1, 9, 5, 0)) == "09:05");
   return 0; }
''', 'a time between nine and ten in the morning', 'the hour has one digit')

bug('S02-text', 'S02', [('src/core/Stream.cpp', 'int64 ret = write((const uint8*)cstr.constData(), cstr.size());', 'int64 ret = write((const uint8*)cstr.constData(), string.size());')], '''int main() {
   uint8 mem[20]; memset(mem, 0, 20); MemoryStream m(mem, 20); Stream& s = m;
   String t("a"); t.append(Char(0xe4)); CHECK(s.write(t) == 3); CHECK(m.position() == 3); CHECK(mem[2] == 0xa4);
   return 0; }
''', 'text with a character outside of ASCII', 'the last bytes of the text are not written')
bug('S02-reopen', 'S02', [('src/core/MemoryStream.cpp', '''   mPosition = 0;
   mWritelength = 0;
   return Status::eOK;''', '''   mPosition = mWritelength;
   mWritelength = 0;
   return Status::eOK;''')], '''int main() {
   uint8 mem[4] = {1, 2, 3, 4}; MemoryStream m(mem, 4); uint8 b[2] = {7, 8};
   m.open(FileMode::kWrite); m.write(b, 2); m.open(FileMode::kRead);
   uint8 r[4]; CHECK(m.read(r, 4) == 4); CHECK(r[0] == 7);
   return 0; }
''', 'a stream that is opened again after writing', 'reading starts behind the bytes written')
bug('F01-slash', 'F01', [('src/core/File.cpp', "if(prev == DIR_SEP && pathname.size() > 1)pathname", "if(prev == DIR_SEP && pathname.size() > 2)pathname")], '''int main() {
   CHECK(File("a/").absolutePath() == "a"); CHECK(File("a/").name() == "a"); CHECK(File("//").absolutePath() == "/");
   return 0; }
''', 'a path of one character followed by a separator', 'the separator stays and the file has no name')
bug('F01-double', 'F01', [('src/core/File.cpp', '''         a--;
         length--;''', '''         length--;''')], '''int main() {
   CHECK(File("a///b").absolutePath() == "a/b");
   return 0; }
''', 'three separators in a row', 'one of them is left over')
bug('F02-order', 'F02', [('src/core/File.cpp', '''      if(d1)return -1;
      return 1;''', '''      if(d1)return -1;
      return mPathname.compareTo(other.mPathname);''')], '''int main() {
   File d("zz"); d.makeDirectory(); File f("aa"); f.createNewFile();
   CHECK(d.compareTo(f) < 0); CHECK(f.compareTo(d) > 0);
   return 0; }
''', 'a file is compared with a directory whose path comes later', 'both come before the other')
bug('F02-large', 'F02', [('src/core/File.cpp', 'return int64((uint64)filestat.st_size);', 'return int64((uint32)filestat.st_size);')], '''#include <unistd.h>
int main() {
   FILE* h = fopen("big", "wb"); fclose(h); CHECK(truncate("big", 5000000000LL) == 0);
   CHECK(File("big").size() == 5000000000LL);
   return 0; }
''', 'a file of more than 4 GiB', 'the size is reported modulo 4 GiB')
bug('F02-seek', 'F02', [('src/core/File.cpp', 'size_t res = fseek(mHandle, (long int)position, SEEK_SET);', 'size_t res = fseek(mHandle, (int32)position, SEEK_SET);')], '''int main() {
   FILE* h = fopen("f", "wb"); fclose(h);
   File f("f"); f.open(FileMode::kRead); f.seek(6000000000LL); CHECK(f.position() == 6000000000LL); f.close();
   return 0; }
''', 'a position beyond 2 GiB', 'the position is reduced modulo 4 GiB')
bug('L01-date', 'L01', [('src/core/System.cpp', """   gSystemMutex.lock();
   gSystemLogDate = status;""", """   gSystemMutex.lock();
   if(gSystemLogDate == status)return;
   gSystemLogDate = status;""")], '''#include <unistd.h>
int main() {
   alarm(20); System::logEnableDate(false); System::logEnableDate(false); System::log("x", LogLevel::kDebug);
   return 0; }
''', 'the date in log messages is switched to what it already is', 'the lock is kept: the next message blocks for ever')
bug('L01-retain', 'L01', [('src/core/Object.cpp', """   mutex->lock();
   mRefCount++;
   mutex->unlock();""", """   int32 count = mRefCount + 1;
   mutex->lock();
   mRefCount = count;
   mutex->unlock();""")], '''#include <pthread.h>
static Object* shared; static const int kTimes = 1000000;
static void* work(void*) { for(int a = 0; a < kTimes; a++)shared->retain(); return nullptr; }
int main() {
   shared = new Object(); pthread_t t[4];
   for(int k = 0; k < 4; k++)pthread_create(&t[k], nullptr, work, nullptr);
   for(int k = 0; k < 4; k++)pthread_join(t[k], nullptr);
   CHECK(shared->referenceCount() == 1 + 4 * kTimes);
   return 0; }
''', 'two threads retain an object at the same time', 'one of the increments is lost')
bug('L01-release', 'L01', [('src/core/Object.cpp', """   count = referenceCount();
   mutex->unlock();""", """   mutex->unlock();
   count = referenceCount();""")], '''#include <pthread.h>
#include <dlfcn.h>
#include <atomic>
// a second release runs just after the first one has given up the lock
static std::atomic<int> deleted(0), armed(0);
static void* watched = nullptr;
void operator delete(void* p) noexcept { if(p != nullptr && p == watched)deleted++; else free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
struct Item: public Object {};
static Item* item;
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
   static int (*next)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
   int r = next(m);
   int want = 1; if(armed.compare_exchange_strong(want, 0))item->release();
   return r; }
int main() {
   item = new Item(); watched = item; item->retain(); armed = 1; item->release();
   CHECK(deleted == 1);
   return 0; }
''', 'another thread releases the object between the end of the critical section and the look at the count', 'the object is deleted twice')
bug('L02-signal', 'L02', [('src/core/Thread.cpp', """   pthread_mutex_lock(&criticalSection);
   alive = false;
   pthread_mutex_unlock(&criticalSection);
   pthread_cond_signal(&cond);
""", """   pthread_cond_signal(&cond);
   pthread_mutex_lock(&criticalSection);
   alive = false;
   pthread_mutex_unlock(&criticalSection);
""")], '''#include <unistd.h>
#include <pthread.h>
#include <dlfcn.h>
struct Worker: public Thread { void run() override { while(isAlive())sleep(); } };
static Worker* worker; static bool interrupting = false;
extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept {
   static int (*next)(pthread_cond_t*) = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_signal");
   int r = next(c);
   // the sleeper wakes, looks and sleeps again before the caller goes on
   if(interrupting)usleep(300000);
   return r; }
int main() {
   alarm(20); worker = new Worker(); worker->start(); usleep(300000); interrupting = true; worker->interrupt();
   return 0; }
''', 'the woken thread looks at the flag before the interrupting thread goes on', 'it sleeps again and interrupt() waits for ever')
bug('L02-days', 'L02', [('src/core/Thread.cpp', 'uint64 m = millis;', 'uint32 m = millis;')], '''#include <pthread.h>
#include <time.h>
static volatile time_t until = 0;
extern "C" int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec* t) { until = t->tv_sec; return 0; }
struct Worker: public Thread { void run() override { sleep(5000000000LL); } };
int main() {
   time_t now = time(nullptr); Worker* w = new Worker(); w->start(); while(until == 0); w->interrupt();
   CHECK(until - now > 4999990);
   return 0; }
''', 'a sleep of more than 49 days', 'the duration is reduced modulo 2^32 milliseconds')
bug('L02-carry', 'L02', [('src/core/Thread.cpp', """   ts.tv_sec += ts.tv_nsec / 1000000000L;
   ts.tv_nsec = ts.tv_nsec % 1000000000L;""", """   if(ts.tv_nsec > 1000000000L)
   {
      ts.tv_sec += ts.tv_nsec / 1000000000L;
      ts.tv_nsec = ts.tv_nsec % 1000000000L;
   }""")], '''#include <pthread.h>
#include <sys/time.h>
static volatile long nanos = -1;
extern "C" int gettimeofday(timeval* tv, void*) noexcept { tv->tv_sec = 1700000000; tv->tv_usec = 500000; return 0; }
extern "C" int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec* t) { nanos = t->tv_nsec; return 0; }
struct Worker: public Thread { void run() override { sleep(500); } };
int main() {
   Worker* w = new Worker(); w->start(); while(nanos == -1); w->interrupt();
   CHECK(nanos >= 0 && nanos < 1000000000L);
   return 0; }
''', 'the microseconds of the clock and the duration add up to exactly one second', 'the deadline is invalid and the thread does not sleep at all')
bug('M01-high', 'M01', [('src/core/Object.cpp', 'if(count == 0)', 'if(count == 0 && !highBit())')], '''static int deleted = 0;
struct Item: public Object { ~Item() noexcept override { deleted++; } void mark() { setHighBit(true); } };
int main() {
   Item* i = new Item(); i->mark(); i->retain(); i->release(); CHECK(deleted == 0); i->release(); CHECK(deleted == 1);
   return 0; }
''', 'the last release of an object whose high bit is set', 'the object is never deleted')
bug('M01-retain', 'M01', [('src/core/Object.cpp', 'mRefCount++;', 'mRefCount = referenceCount() + 1;')], '''struct Item: public Object { void mark() { setHighBit(true); } bool marked() { return highBit(); } };
int main() {
   Item* i = new Item(); i->mark(); i->retain(); CHECK(i->marked()); CHECK(i->referenceCount() == 2);
   return 0; }
''', 'an object whose high bit is set is retained', 'the high bit is lost')

bug('V05-key', 'V05', [('src/core/Color.cpp', 'col.rgb.blue = static_cast<uint8>(255 - std::min(255, y + k));', 'col.rgb.blue = static_cast<uint8>((255 - y) * (255 - k) / 255);')], '''
int main() {
   Color a = Color::fromCmyk(0, 0, 200, 0); a.toRgb(); CHECK(a.blue() == 55);
   Color b = Color::fromCmyk(0, 0, 0, 80); b.toRgb(); CHECK(b.blue() == 175);
   Color c = Color::fromCmyk(0, 0, 100, 100); c.toRgb(); CHECK(c.blue() == 55);
   return 0; }
''', 'yellow and key of a CMYK colour are both positive', 'blue is the product instead of the clipped sum')
bug('V05-circle', 'V05', [('src/core/Color.cpp', """      case 0:
      case 6:
""", """      case 0:
""")], '''
int main() {
   Color a = Color::FromHsv(0, 1, 1); CHECK(a.red() == 255 && a.green() == 0);
   Color b = Color::FromHsv(360, 1, 1); CHECK(b.red() == 255 && b.green() == 0 && b.blue() == 0);
   return 0; }
''', 'a hue of exactly 360 degrees', 'the colour is black')
bug('V05-alpha', 'V05', [('src/core/Color.cpp', 'if(c1.mAlpha != c2.mAlpha)return false;', 'if(c1.mMode != ColorMode::kGrey && c1.mAlpha != c2.mAlpha)return false;')], '''
int main() {
   CHECK(!(Color::fromRgb(1, 2, 3, 4) == Color::fromRgb(1, 2, 3, 5)));
   CHECK(Color::fromGrey(9, 4) == Color::fromGrey(9, 4)); CHECK(Color::fromGrey(9, 4) != Color::fromGrey(9, 5));
   return 0; }
''', 'two grey colours that differ in their alpha only', 'they compare equal')

COUNT = '''#include <cstdlib>
#include <new>
#include <cstring>
static volatile long live = 0, gone = 0; static volatile size_t watch = 0;
void* operator new(size_t n) { live = live + 1; char* p = (char*) malloc(n); memset(p, 0x5a, n); return p; }
void* operator new[](size_t n) { live = live + 1; char* p = (char*) malloc(n); memset(p, 0x5a, n); return p; }
void operator delete(void* p) noexcept { if(p) live = live - 1; free(p); }
void operator delete[](void* p) noexcept { if(p) live = live - 1; free(p); }
void operator delete(void* p, size_t n) noexcept { if(p) live = live - 1; if(n == watch) gone = gone + 1; free(p); }
void operator delete[](void* p, size_t) noexcept { if(p) live = live - 1; free(p); }
'''

bug('M02-empty', 'M02', [('src/core/Matrix.cpp', """      n = A.n;
      if(data != nullptr)delete[] data;
""", """      n = A.n;
      if(m * n > 0)delete[] data;
""")], COUNT + '''
int main() {
   long before = live;
   { Matrix a(3, 3), b; a = b; }
   CHECK(live == before);
   { Matrix a(3, 3), b(2, 2); a = b; }
   CHECK(live == before);
   return 0; }
''', 'an empty matrix is assigned to one with elements', 'the storage of the old elements is never given back')
bug('M02-self', 'M02', [('src/core/Charset.cpp', """      if(this == &another) return *this;
      if(buffer != nullptr)delete[] buffer;
""", """      if(buffer != nullptr)delete[] buffer;
""")], COUNT + '''
int main() {
   CharArray a(40); for(int i = 0; i < 40; i++) a.buffer[i] = Char((uint16) (i + 65));
   CharArray& b = a; b = a;
   for(int i = 0; i < 40; i++) CHECK(a.buffer[i] == Char((uint16) (i + 65)));
   return 0; }
''', 'an array is assigned to itself', 'it is filled from storage that was given back')
bug('M02-stream', 'M02', [('src/core/Resource.cpp', """   mStream = other.mStream;
   if(mStream != nullptr)mStream->retain();
""", """   mStream = other.mStream;
   if(mStream != nullptr && mStream->size() > 0)mStream->retain();
""")], COUNT + '''
int main() {
   Resource* a = new Resource("no such resource"); Resource* b = new Resource(*a);
   long before = live;
   delete a;
   CHECK(before - live == 1);
   delete b;
   return 0; }
''', 'a resource without content is copied', 'the stream is deleted while the copy uses it')
bug('M02-same', 'M02', [('src/core/Vector.cpp', """      if(data != nullptr)delete[] data;
      m = another.m;
""", """      if(m != another.m)delete[] data;
      m = another.m;
""")], COUNT + '''
int main() {
   long before = live;
   { Vector a(3), b(3); a = b; }
   CHECK(live == before);
   return 0; }
''', 'a vector of the same dimension is assigned', 'the storage of the old components is never given back')

BITS = """#include <vector>
struct Bits { std::vector<uint8> b; int n = 0;
   void num(int v, int k) { for(int i = 0; i < k; i++) bit(v >> i & 1); }
   void code(int v, int k) { for(int i = k - 1; i >= 0; i--) bit(v >> i & 1); }
   void bit(int v) { if(n % 8 == 0) b.push_back(0); b.back() = (uint8) (b.back() | v << n % 8); n++; }
   void stored(int last, int len) { num(last, 1); num(0, 2); while(n % 8) bit(0); num(len, 16); num(len ^ 0xFFFF, 16); for(int i = 0; i < len; i++) num(i * 7 + i / 251, 8); } };
static uint8 at(int i) { return (uint8) (i * 7 + i / 251); }
"""
bug('X01-stored', 'X01', [('src/core/Inflater.cpp', '   for(int32 a = 0; a < len; a++)\n   {\n      uint8 b =', '   for(int16 a = 0; a < (int16) len; a++)\n   {\n      uint8 b =')], BITS + '''int main() {
   Bits w; w.stored(1, 40000);
   Inflater f(true); f.SetInput(w.b.data(), w.b.size());
   uint8* p = nullptr; int64 n = 0; f.Inflate(p, n);
   CHECK(n == 40000); for(int i = 0; i < n; i++) CHECK(p[i] == at(i));
   delete[] p; return 0; }
''', 'a stored block of more than 32767 bytes', 'the block is skipped, its bytes are read as the following blocks')
bug('X01-window', 'X01', [('src/core/Inflater.cpp', 'if(compressionInfo > 7)throw', 'if(compressionInfo > 8)throw')], '''int main() {
   uint8 d[] = {0x88, 0x1C, 1, 1, 0, 0xFE, 0xFF, 65};
   Inflater f(false); f.SetInput(d, sizeof d); uint8* p = nullptr; int64 n = 0;
   try { f.Inflate(p, n); } catch(Exception& e) { return 0; }
   return 1; }
''', 'a zlib header that names a window of 64 KiB', 'a header that is not valid is accepted')
bug('X01-again', 'X01', [('src/core/Inflater.cpp', '''   mTotalIn = 0;
   mTotalOut = 0;
   mBit = 0;
   mLastBlock = false;
   mEof = false;
}

int64''', '''   mTotalIn = 0;
   mTotalOut = 0;
   mLastBlock = false;
   mEof = false;
}

int64'''), ('src/core/Inflater.cpp', '''   mUncompBytes = nullptr;
   Reset();
   mWrap = wrap;
''', '''   mUncompBytes = nullptr;
   mBit = 0;
   Reset();
   mWrap = wrap;
''')], BITS + '''int main() {
   Bits bad; bad.num(7, 3); bad.num(0, 5);
   Inflater f(true); f.SetInput(bad.b.data(), bad.b.size());
   uint8* p = nullptr; int64 n = 0; bool thrown = false;
   try { f.Inflate(p, n); } catch(Exception& e) { thrown = true; }
   CHECK(thrown);
   Bits w; w.stored(1, 5); f.Reset(); f.SetInput(w.b.data(), w.b.size());
   try { f.Inflate(p, n); } catch(Exception& e) { return 1; }
   CHECK(n == 5); for(int i = 0; i < n; i++) CHECK(p[i] == at(i));
   delete[] p; return 0; }
''', 'an object that has met a corrupt stream is used again after Reset', 'reading begins in the middle of the first byte')
bug('X01-last', 'X01', [('src/core/Inflater.cpp', '            && code <= 0xC7)', '            && code <= 0xC4)')], BITS + '''int main() {
   Bits w; w.stored(0, 10); w.num(1, 1); w.num(1, 2);
   w.code(0xC5, 8); w.code(0, 5); w.code(0, 7);
   Inflater f(true); f.SetInput(w.b.data(), w.b.size());
   uint8* p = nullptr; int64 n = 0;
   try { f.Inflate(p, n); } catch(Exception& e) { return 1; }
   CHECK(n == 268); for(int i = 10; i < n; i++) CHECK(p[i] == at(9));
   delete[] p; return 0; }
''', 'a repetition of 258 bytes in a block with the fixed codes', 'a valid stream is rejected')
bug('X01-total', 'X01', [('src/core/Deflater.cpp', '   mTotalOut += length;', '   mTotalOut = length;')], '''int main() {
   uint8 a[50]; memset(a, 1, 50); Deflater d; uint8* p; int64 n, sum = 0;
   for(int i = 0; i < 2; i++) { d.setInput(a, 50); d.deflate(p, n); sum += n; delete[] p; }
   CHECK(d.totalInSize() == 100 && d.totalOutSize() == sum);
   return 0; }
''', 'more than one block is compressed with one object', 'the total size of the output is that of the last block')

ZIP = '''static void z16(std::vector<uint8>& d, int v) { d.push_back(v & 255); d.push_back(v >> 8 & 255); }
static void z32(std::vector<uint8>& d, uint32 v) { z16(d, v & 65535); z16(d, v >> 16); }
static void zstr(std::vector<uint8>& d, const std::string& s) { for(char c : s) d.push_back((uint8)c); }
struct Zip { std::vector<uint8> d, dir; int n = 0;
  void add(const std::string& name, const std::string& data, const std::string& extra = "", const std::string& comment = "", const std::string& lextra = "") {
    uint32 at = d.size(); z32(d, 0x04034b50); z16(d, 20); z16(d, 0); z16(d, 0); z32(d, 0); z32(d, 0); z32(d, data.size()); z32(d, data.size()); z16(d, name.size()); z16(d, lextra.size()); zstr(d, name); zstr(d, lextra); zstr(d, data);
    z32(dir, 0x02014b50); z16(dir, 20); z16(dir, 20); z16(dir, 0); z16(dir, 0); z32(dir, 0); z32(dir, 0); z32(dir, data.size()); z32(dir, data.size()); z16(dir, name.size()); z16(dir, extra.size()); z16(dir, comment.size()); z16(dir, 0); z16(dir, 0); z32(dir, 0); z32(dir, at); zstr(dir, name); zstr(dir, extra); zstr(dir, comment); n++; }
  std::vector<uint8> end() { std::vector<uint8> r = d; r.insert(r.end(), dir.begin(), dir.end()); z32(r, 0x06054b50); z16(r, 0); z16(r, 0); z16(r, n); z16(r, n); z32(r, dir.size()); z32(r, d.size()); z16(r, 0); return r; } };
static std::string text(ZipFile& z, const char* name) { ZipEntry* e = z.entry(String(name)); if(!e) return "(none)"; Stream* s = z.stream(e); std::string r; for(int64 i = 0; i < s->size(); i++) { uint8 b; s->read(&b, 1); r += (char)b; } delete s; return r; }
'''
bug('Z01-extra', 'Z01', [('src/core/ZipFile.cpp', 'uint32 el = jm::deserializeLEUInt16(localHeader, 28);', 'uint32 el = (uint32)entry->mExtra.size();')], '#include <vector>\n#include <string>\n' + ZIP + '''int main() {
   Zip b; b.add("a", "first", "EXTRA", "", "LX"); b.add("b", "second"); std::vector<uint8> d = b.end();
   MemoryStream m(d.data(), d.size()); ZipFile z(&m); z.open();
   CHECK(z.entryCount() == 2); CHECK(text(z, "a") == "first"); CHECK(text(z, "b") == "second");
   return 0; }
''', 'an entry whose extra field in the local header has another length than the one in the directory', 'the data begin at a wrong place')
bug('Z01-next', 'Z01', [('src/core/ZipFile.cpp', 'index += 46 + fileNameLength + extraFieldLength + commentLength;', 'index += 46 + fileNameLength + extraFieldLength;')], '#include <vector>\n#include <string>\n' + ZIP + '''int main() {
   Zip b; b.add("a", "first", "", "a comment"); b.add("b", "second"); std::vector<uint8> d = b.end();
   MemoryStream m(d.data(), d.size()); ZipFile z(&m); try { z.open(); } catch(...) { return 1; }
   CHECK(z.entryCount() == 2); CHECK(text(z, "b") == "second");
   return 0; }
''', 'an entry with a comment in front of another one', 'the next record is looked for inside of the comment')
bug('Z01-count', 'Z01', [('src/core/ZipFile.cpp', 'uint16 recordCount = ', 'uint8 recordCount = '), ('src/core/ZipFile.cpp', '   uint32 count = 0;\n   while(count < recordCount)', '   uint8 count = 0;\n   while(count < recordCount)')], '#include <vector>\n#include <string>\n' + ZIP + '''int main() {
   Zip b; for(int i = 0; i < 300; i++) b.add("n" + std::to_string(i), "x"); std::vector<uint8> d = b.end();
   MemoryStream m(d.data(), d.size()); ZipFile z(&m); z.open();
   CHECK(z.entryCount() == 300); CHECK(text(z, "n299") == "x");
   return 0; }
''', 'an archive of more than 255 entries', 'entries are missing')
ZOUT = '''static std::vector<uint8> bytes(const char* p) { std::vector<uint8> r; FILE* f = fopen(p, "rb"); if(!f) return r; int c; while((c = fgetc(f)) != EOF) r.push_back((uint8)c); fclose(f); return r; }
static uint32 le(const std::vector<uint8>& d, size_t i) { return d[i] | d[i + 1] << 8 | d[i + 2] << 16 | (uint32)d[i + 3] << 24; }
'''
bug('Z02-crc', 'Z02', [('src/core/ZipOutputFile.cpp', 'for(uint32 i = 0; i < n; i++)', 'for(uint32 i = 0; i < n && s[i] != 0; i++)')], '#include <vector>\n#include <string>\n' + ZOUT + '''int main() {
   { File f(currentDir(), "o.zip"); ZipOutputFile z(&f); z.open(); ZipEntry e("a"); uint8 d[5] = {'a', 'b', 0, 'c', 'd'}; z.putNextEntry(&e); z.write(d, 0, 5); z.closeEntry(); z.close(); }
   std::vector<uint8> d = bytes("o.zip"); CHECK(d.size() > 40); CHECK(le(d, 14) == crc32(0, (const uint8*)"ab\\\\0cd", 5));
   return 0; }
'''.replace('\\\\0', '\\0'), 'data with a zero byte', 'the checksum covers a part of the data only')
bug('Z02-chunk', 'Z02', [('src/core/ZipOutputFile.cpp', 'mTemp->write(&data[offset], length);', 'mTemp->write(data, length);')], '#include <vector>\n#include <string>\n' + ZOUT + '''int main() {
   { File f(currentDir(), "o.zip"); ZipOutputFile z(&f); z.open(); ZipEntry e("a"); uint8 d[6] = {'a', 'b', 'c', 'd', 'e', 'f'}; z.putNextEntry(&e); z.write(d, 0, 3); z.write(d, 3, 3); z.closeEntry(); z.close(); }
   std::vector<uint8> d = bytes("o.zip"); CHECK(d.size() > 40); CHECK(d[31] == 'a' && d[34] == 'd' && d[36] == 'f');
   return 0; }
''', 'data written in several pieces out of one array', 'the first piece is repeated')
bug('Z02-local', 'Z02', [('src/core/ZipOutputFile.cpp', 'jm::serializeLEInt32(cdfh, 42, entry->mHeaderOffset);', 'jm::serializeLEInt32(cdfh, 42, entry->mDataOffset - 30 - (int32)entry->mName.size());')], '#include <vector>\n#include <string>\n' + ZOUT + '''int main() {
   String name("a"); name.append(Char(0xe4));
   { File f(currentDir(), "o.zip"); ZipOutputFile z(&f); z.open(); ZipEntry a("first"), e(name); uint8 d[2] = {1, 2}; z.putNextEntry(&a); z.write(d, 0, 2); z.closeEntry(); z.putNextEntry(&e); z.write(d, 0, 1); z.closeEntry(); z.close(); }
   std::vector<uint8> d = bytes("o.zip"); size_t k = d.size() - 22; uint32 at = le(d, k + 16); at += 46 + 5; CHECK(le(d, at) == 0x02014b50); CHECK(le(d, le(d, at + 42)) == 0x04034b50);
   return 0; }
''', 'an entry whose name has characters outside of ASCII', 'the directory refers to a wrong place')
bug('D03-has', 'D03', [('src/core/Preferences.cpp', 'return get(key) != nullptr;', 'return value(key).size() > 0;')], '''int main() {
   Preferences p; p.setValue("k", String("")); CHECK(p.hasValue("k")); CHECK(!p.hasValue("j"));
   return 0; }
''', 'a key whose value is the empty text', 'the value is reported as missing')
bug('D03-double', 'D03', [('src/core/Preferences.cpp', 'int64 value = defaultValue;', 'int64 value = 0;')], '''int main() {
   Preferences p; p.setValue("k", String("wide")); CHECK(p.valueInt("k", 25) == 25); CHECK(p.valueInt("j", 15) == 15);
   return 0; }
''', 'a text that is no number', '0 is returned instead of the default')
bug('D03-header', 'D03', [('src/core/I18nBundle.cpp', 'for(int64 index = 0; index < stringCount; index++)', 'for(int64 index = 1; index < stringCount; index++)')], '#include <vector>\n#include <string>\n' + '''static void w(std::vector<uint8>& d, uint32 v) { for(int i = 0; i < 4; i++) d.push_back(v >> 8 * i & 255); }
int main() {
   std::vector<uint8> d; w(d, 0x950412de); w(d, 0); w(d, 2); w(d, 28); w(d, 44); w(d, 0); w(d, 0); w(d, 1); w(d, 60); w(d, 1); w(d, 62); w(d, 1); w(d, 64); w(d, 1); w(d, 66);
   const char t[] = "a\\\\0b\\\\0x\\\\0y"; for(int i = 0; i < 8; i++) d.push_back(t[i]);
   MemoryStream m(d.data(), d.size()); I18nBundle b("de"); b.appendMo(&m);
   CHECK(b.translate("a") == "x"); CHECK(b.translate("b") == "y");
   return 0; }
'''.replace('\\\\0', '\\0'), 'a translation file without a header entry', 'the first text is not translated')
