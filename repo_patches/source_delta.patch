From 495059b1f48da4ecfc883e9506a4305999e81b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 001/122] fix: loading an empty container leaves the previous
 elements in place

---
 typelib/value_ops.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 104f4cb..031486a 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -172,7 +172,10 @@ boost::tuple<size_t, MemoryLayout::const_iterator> ValueOps::load(
                 boost::uint64_t element_count;
                 stream.read(reinterpret_cast< boost::uint8_t* >(&element_count), sizeof( boost::uint64_t ));
                 if (element_count == 0)
+                {
+                    type->clear(container_ptr);
                     it = MemoryLayout::skipBlock(++it, end);
+                }
                 else
                 {
                     it = type->load(container_ptr, element_count, stream, ++it, end);
-- 
2.43.0


From d9fda4ac50756a65920f1a8b2ec96930c13bb029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 002/122] fix: dumping to a FILE ignores write errors

---
 typelib/value_ops.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 031486a..e627b46 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -693,7 +693,8 @@ struct FileOutputStream : public OutputStream
 
     void write(boost::uint8_t const* data, size_t size)
     {
-        ::fwrite(data, size, 1, fd);
+        if (size && ::fwrite(data, size, 1, fd) != 1)
+            throw std::runtime_error("write failed in ValueOps::dump");
     }
 };
 void Typelib::dump(Value v, FILE* fd)
-- 
2.43.0


From 5f649d1eea90cdcdd365c03b105d117acedd1087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 003/122] fix: simplifying an array without contents corrupts
 the memory layout

---
 typelib/memory_layout.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index e8272f2..02bb1e6 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -193,8 +193,10 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
             }
             else if (added_ops == 0)
             {
-                // Void all the modifications we've made so far
-                simplified.init_ops.resize(content_i - 4);
+                // Void all the modifications we've made so far: the array itself
+                // and, if there is one, the pending skip (which is still
+                // counted in current_op_count)
+                simplified.init_ops.resize(content_i - (current_op_count ? 4 : 2));
             }
             else
             {
@@ -311,8 +313,10 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
             }
             else if (added_ops == 0)
             {
-                // Void all the modifications we've made so far
-                simplified.ops.resize(content_i - 4);
+                // Void all the modifications we've made so far: the array itself
+                // and, if there is one, the pending op (which is still counted
+                // in current_op_count)
+                simplified.ops.resize(content_i - (current_op_count ? 4 : 2));
             }
             else
             {
-- 
2.43.0


From 9a5875713a096d1fa69e58a17d4d5fd9dd74518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 004/122] fix: value operations fail on zero-length arrays of
 complex elements

---
 typelib/memory_layout.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 02bb1e6..cd0e97d 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -577,7 +577,9 @@ bool MemLayout::Visitor::visit_ (Array   const& type)
     MemoryLayout subops;
     MemLayout::Visitor array_visitor(subops);
     array_visitor.apply(type.getIndirection());
-    ops.pushArray(type, subops);
+    // A zero-length array holds no bytes
+    if (type.getDimension() != 0)
+        ops.pushArray(type, subops);
     return true;
 }
 bool MemLayout::Visitor::visit_ (Container const& type)
-- 
2.43.0


From 74953f8f1d9bcbecf7bbf7ac602d490dfdc647fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 005/122] fix: layouts of arrays and containers ignore
 accept_pointers and accept_opaques

---
 typelib/memory_layout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index cd0e97d..f22dfe8 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -575,7 +575,7 @@ bool MemLayout::Visitor::visit_ (Enum    const& type)
 bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor array_visitor(subops);
+    MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
     array_visitor.apply(type.getIndirection());
     // A zero-length array holds no bytes
     if (type.getDimension() != 0)
@@ -585,7 +585,7 @@ bool MemLayout::Visitor::visit_ (Array   const& type)
 bool MemLayout::Visitor::visit_ (Container const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor container_visitor(subops);
+    MemLayout::Visitor container_visitor(subops, accept_pointers, accept_opaques);
     container_visitor.apply(type.getIndirection());
     ops.pushContainer(type, subops);
     return true;
-- 
2.43.0


From d0562e5384a0810f1652f39f9cba13c222d0148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 006/122] fix: overflow on huge element counts when loading
 vectors

---
 lang/csupport/containers.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index b537173..c6a6068 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -336,6 +336,8 @@ Container::MarshalOps::const_iterator Vector::load(
 
     Type const& element_t = getIndirection();
     size_t      element_size = element_t.getSize();
+    if (element_count > vector_ptr->max_size() / element_size)
+        throw std::runtime_error("error in load(): element count too big for a vector");
     resize(vector_ptr, element_count);
 
     MarshalOps::const_iterator it = begin;
-- 
2.43.0


From bd8f9acae1a46389e3b91f1111bde178fe3b27f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 007/122] fix: type comparison depends on which other types
 were compared before

---
 typelib/typemodel.cc | 59 ++++++++++++++++++--------------------------
 typelib/typemodel.hh | 27 +++++++++++---------
 2 files changed, 40 insertions(+), 46 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index bfe0c67..9998ece 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -56,49 +56,37 @@ namespace Typelib
         if (this == &with)
             return true;
 
-        RecursionStack stack;
-        stack.insert(make_pair(this, &with));
-        return do_compare(with, true, stack);
+        ComparisonStack stack;
+        return rec_compare(*this, with, true, stack);
     }
     bool   Type::canCastTo(Type const& with) const
     {
         if (this == &with)
             return true;
 
-        RecursionStack stack;
-        stack.insert(make_pair(this, &with));
-        return do_compare(with, false, stack);
+        ComparisonStack stack;
+        return rec_compare(*this, with, false, stack);
     }
 
     unsigned int Type::getTrailingPadding() const
     { return 0; }
 
-    bool Type::rec_compare(Type const& left, Type const& right, bool equality, RecursionStack& stack) const
+    bool Type::rec_compare(Type const& left, Type const& right, bool equality, ComparisonStack& stack) const
     {
         if (&left == &right)
             return true;
 
-        RecursionStack::const_iterator it = stack.find(&left);
-        if (it != stack.end())
-        {
-            /** One type cannot be equal to two different types. So either we
-             * are already comparing left and right and it is fine (return
-             * true). Or we are comparing it with a different type and that
-             * means the two types are different (return false)
-             */
-            return (&right == it->second);
-        }
-
-        RecursionStack::iterator new_it = stack.insert( make_pair(&left, &right) ).first;
-        try {
-            return left.do_compare(right, equality, stack);
-        }
-        catch(...) {
-            stack.erase(new_it);
-            throw;
-        }
+        /** A comparison stops at the first difference. If we are already
+         * comparing these two types, or if we are done comparing them, they can
+         * therefore be considered as equal. Note that the comparison of the
+         * same left type with another right type is a different comparison, as
+         * types are equal regardless of their names
+         */
+        if (!stack.insert( make_pair(make_pair(&left, &right), equality) ).second)
+            return true;
+        return left.do_compare(right, equality, stack);
     }
-    bool Type::do_compare(Type const& other, bool equality, RecursionStack& stack) const
+    bool Type::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
     { return (getSize() == other.getSize() && getCategory() == other.getCategory()); }
 
     Type const& Type::merge(Registry& registry) const
@@ -115,7 +103,8 @@ namespace Typelib
         Type const* old_type = registry.get(getName());
         if (old_type)
         {
-            if (old_type->do_compare(*this, true, stack))
+            ComparisonStack comparison_stack;
+            if (rec_compare(*old_type, *this, true, comparison_stack))
             {
                 stack.insert(make_pair(this, old_type));
                 return old_type;
@@ -237,13 +226,13 @@ namespace Typelib
             m_values[it->first].insert(it->second.begin(), it->second.end());
     }
 
-    bool OpaqueType::do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
+    bool OpaqueType::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
     { return Type::do_compare(other, equality, stack) && getName() == other.getName(); }
 
     Numeric::Numeric(std::string const& name, size_t size, NumericCategory category)
         : Type(name, size, Type::Numeric), m_category(category) {}
     Numeric::NumericCategory Numeric::getNumericCategory() const { return m_category; }
-    bool Numeric::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Numeric::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     { return getSize() == type.getSize() && getCategory() == type.getCategory() &&
         m_category == static_cast<Numeric const&>(type).m_category; }
     Type* Numeric::do_merge(Registry& registry, RecursionStack& stack) const
@@ -253,7 +242,7 @@ namespace Typelib
         : Type(name, size, category)
         , m_indirection(on) {}
     Type const& Indirect::getIndirection() const { return m_indirection; }
-    bool Indirect::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Indirect::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     { return Type::do_compare(type, equality, stack) &&
         rec_compare(m_indirection, static_cast<Indirect const&>(type).m_indirection, equality, stack); }
     std::set<Type const*> Indirect::dependsOn() const
@@ -335,7 +324,7 @@ namespace Typelib
         }
         return getSize() - max_offset;
     }
-    bool Compound::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Compound::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     {
         if (type.getCategory() != Type::Compound)
             return false;
@@ -454,7 +443,7 @@ namespace Typelib
         : Type (name, sizeof(FindSizeOfEnum), Type::Enum)
         , m_last_value(initial_value - 1) { }
     Enum::ValueMap const& Enum::values() const { return m_values; }
-    bool Enum::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Enum::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     {
         Enum const& other_type = static_cast<Enum const&>(type);
         if (!Type::do_compare(type, equality, stack))
@@ -533,7 +522,7 @@ namespace Typelib
         return stream.str();
     }
     size_t  Array::getDimension() const { return m_dimension; }
-    bool Array::do_compare(Type const& type, bool equality, RecursionStack& stack) const
+    bool Array::do_compare(Type const& type, bool equality, ComparisonStack& stack) const
     {
         if (!Type::do_compare(type, equality, stack))
             return false;
@@ -604,7 +593,7 @@ namespace Typelib
         return (*it->second)(r, on);
     }
 
-    bool Container::do_compare(Type const& other, bool equality, RecursionStack& stack) const
+    bool Container::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
     {
         if (!Type::do_compare(other, true, stack))
             return false;
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 91d6e15..e18d323 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -164,9 +164,14 @@ namespace Typelib
          */
         Type const& merge(Registry& registry) const;
 
-        /** Foreign => local mapping for merge() and isSame() */
+        /** Foreign => local mapping for merge() */
         typedef std::map<Type const*, Type const*> RecursionStack;
 
+        /** The (left, right, equality) comparisons that have already been
+         * started by isSame() and canCastTo()
+         */
+        typedef std::set< std::pair< std::pair<Type const*, Type const*>, bool > > ComparisonStack;
+
         /** Base merge method. The default implementation should be fine for
          * most types.
          *
@@ -220,14 +225,14 @@ namespace Typelib
          * The base definition compares the name, size and category of the
          * types.
          */
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
 
         /** Called by do_compare to compare +left+ to +right+. This method takes
          * into account potential loops in the recursion
          *
          * See do_compare for a description of the equality flag.
          */
-        bool rec_compare(Type const& left, Type const& right, bool equality, RecursionStack& stack) const;
+        bool rec_compare(Type const& left, Type const& right, bool equality, ComparisonStack& stack) const;
 
         /** Checks if there is already a type with the same name and definition
          * than *this in \c registry. If that is the case, returns it, otherwise
@@ -256,7 +261,7 @@ namespace Typelib
     public:
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const
         { return other.getName() == getName(); }
 
     private:
@@ -272,7 +277,7 @@ namespace Typelib
     public:
         OpaqueType(std::string const& name, size_t size) : Type(name, size, Type::Opaque) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new OpaqueType(*this); }
     };
 
@@ -299,7 +304,7 @@ namespace Typelib
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         NumericCategory m_category;
     };
@@ -349,7 +354,7 @@ namespace Typelib
         Enum::integral_type getNextValue() const;
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         integral_type m_last_value;
         ValueMap m_values;
@@ -427,7 +432,7 @@ namespace Typelib
         void normalizeFieldOrder();
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         bool do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
         FieldList m_fields;
@@ -451,7 +456,7 @@ namespace Typelib
         virtual Type const& merge(Registry& registry, RecursionStack& stack) const;
 
     protected:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual bool do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
 
         /** Overloaded in subclasses to return the name of this type based on
@@ -481,7 +486,7 @@ namespace Typelib
         virtual std::string getIndirectTypeName(std::string const& inside_name) const;
 
     private:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
         virtual bool do_resize(Registry& into, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
         size_t m_dimension;
@@ -671,7 +676,7 @@ namespace Typelib
         static Container const& createContainer(Registry& r, std::string const& name, std::list<Type const*> const& on);
 
     protected:
-        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const;
         virtual ContainerFactory getFactory() const = 0;
         Type* do_merge(Registry& registry, RecursionStack& stack) const;
 
-- 
2.43.0


From 59304da2384c3ea6462b2089ec76d9635c01474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 008/122] fix: erase and delete_if do nothing on strings

---
 lang/csupport/containers.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index c6a6068..74237da 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -430,7 +430,18 @@ void String::push(void* ptr, Value v) const
 
 bool String::erase(void* ptr, Value v) const
 {
-    return false;
+    if (v.getType() != getIndirection())
+        throw std::runtime_error("type mismatch in string erasure");
+
+    std::string* string_ptr =
+        reinterpret_cast< std::string* >(ptr);
+
+    size_t pos = string_ptr->find(*reinterpret_cast<std::string::value_type*>(v.getData()));
+    if (pos == std::string::npos)
+        return false;
+
+    string_ptr->erase(pos, 1);
+    return true;
 }
 
 bool String::compare(void* ptr, void* other) const
@@ -488,7 +499,18 @@ Container::MarshalOps::const_iterator String::load(
     return begin + 2;
 }
 void String::delete_if_impl(void* ptr, DeleteIfPredicate& pred) const
-{}
+{
+    std::string* string_ptr =
+        reinterpret_cast< std::string* >(ptr);
+
+    for (size_t i = 0; i < string_ptr->length(); )
+    {
+        if (pred.should_delete(Value(&(*string_ptr)[i], getIndirection())))
+            string_ptr->erase(i, 1);
+        else
+            ++i;
+    }
+}
 
 Container const& String::factory(Registry& registry, std::list<Type const*> const& on)
 {
-- 
2.43.0


From 6b2d8a5a07b0ca759599df7bc0c1bddbcd003d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 009/122] fix: pushing an element of a vector into this same
 vector

---
 lang/csupport/containers.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 74237da..686d1f5 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -150,7 +150,18 @@ void Vector::push(void* ptr, Value v) const
         reinterpret_cast< std::vector<uint8_t>* >(ptr);
 
     size_t size = getElementCount(ptr);
+
+    // The value might be one of the elements, in which case it is going to move
+    // if the vector has to be reallocated
+    uint8_t* data = reinterpret_cast<uint8_t*>(v.getData());
+    uint8_t* base = vector_ptr->data();
+    bool is_element = (data >= base && data < base + vector_ptr->size());
+    size_t data_offset = is_element ? data - base : 0;
+
     resize(vector_ptr, size + 1);
+    if (is_element)
+        v = Value(&(*vector_ptr)[data_offset], getIndirection());
+
     Typelib::copy(
             Value(&(*vector_ptr)[size * getIndirection().getSize()], getIndirection()),
             v);
-- 
2.43.0


From 5bade26cd68efa96ef0f3fb6eeea07505099cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 010/122] fix: trailing skips are removed from layouts that
 should keep them

---
 typelib/memory_layout.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index f22dfe8..4a0ea90 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -363,7 +363,9 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
 
     if (current_op_count)
     {
-        if (!remove_trailing_skips || current_op != FLAG_SKIP || depth > 0)
+        if (!remove_trailing_skips)
+            simplified.pushGenericOp(current_op, current_op_count);
+        else if (current_op != FLAG_SKIP || depth > 0)
             simplified.pushGenericOp(current_op, current_op_count - current_skip_count);
     }
 
-- 
2.43.0


From 8bef98bf2733a6202167951e5e75296bf68657ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 011/122] fix: vectors cannot be marshalled with a layout that
 is not merged

---
 lang/csupport/containers.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 686d1f5..bf30b06 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -308,6 +308,16 @@ void Vector::delete_if_impl(void* ptr, DeleteIfPredicate& pred) const
     }
 }
 
+/** Tests whether the operations for one element, starting at \c begin, are a
+ * single memcpy. It might not be the case even if isElementMemcpy() returns
+ * true, as the caller chooses how the layout is simplified
+ */
+static bool isMemcpyBlock(MemoryLayout::const_iterator begin, MemoryLayout::const_iterator end)
+{
+    return (end - begin) > 2 && *begin == MemLayout::FLAG_MEMCPY &&
+        *(begin + 2) == MemLayout::FLAG_END;
+}
+
 Container::MarshalOps::const_iterator Vector::dump(
         void const* container_ptr, size_t element_count, OutputStream& stream,
         MarshalOps::const_iterator const begin, MarshalOps::const_iterator const end) const
@@ -316,7 +326,7 @@ Container::MarshalOps::const_iterator Vector::dump(
         reinterpret_cast< std::vector<uint8_t> const* >(container_ptr);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isElementMemcpy() && isMemcpyBlock(begin, end))
     {
         // optimize a bit: do a huge memcpy if possible
         size_t size       = *(++it) * element_count;
@@ -352,7 +362,7 @@ Container::MarshalOps::const_iterator Vector::load(
     resize(vector_ptr, element_count);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isElementMemcpy() && isMemcpyBlock(begin, end))
     {
         size_t size       = *(++it) * element_count;
         stream.read(&(*vector_ptr)[0], size);
-- 
2.43.0


From f11c7f46363c95acd2359e7093668821d6b8884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 012/122] fix: data lost when the fields of a compound are not
 declared in memory order

---
 typelib/memory_layout.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 4a0ea90..2a37cdd 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -1,5 +1,6 @@
 #include "memory_layout.hh"
 #include <iostream>
+#include <algorithm>
 #include <boost/lexical_cast.hpp>
 using namespace Typelib;
 using namespace Typelib::MemLayout;
@@ -592,18 +593,30 @@ bool MemLayout::Visitor::visit_ (Container const& type)
     ops.pushContainer(type, subops);
     return true;
 }
+static bool fieldMemoryOrdering(Field const* f0, Field const* f1)
+{
+    if (f0->getOffset() != f1->getOffset())
+        return f0->getOffset() < f1->getOffset();
+    return f0->getType().getSize() < f1->getType().getSize();
+}
+
 bool MemLayout::Visitor::visit_ (Compound const& type)
 {
-    typedef Compound::FieldList Fields;
-    Fields const& fields(type.getFields());
+    // Fields can be declared in any order. The layout follows the memory
+    typedef std::vector<Field const*> Fields;
+    Fields fields;
+    for (Compound::FieldList::const_iterator it = type.getFields().begin();
+            it != type.getFields().end(); ++it)
+        fields.push_back(&(*it));
+    std::stable_sort(fields.begin(), fields.end(), fieldMemoryOrdering);
     Fields::const_iterator const end = fields.end();
 
     size_t current_offset = 0;
     for (Fields::const_iterator it = fields.begin(); it != end; ++it)
     {
-        ops.pushSkip(it->getOffset() - current_offset);
-        dispatch(it->getType());
-        current_offset = it->getOffset() + it->getType().getSize();
+        ops.pushSkip((*it)->getOffset() - current_offset);
+        dispatch((*it)->getType());
+        current_offset = (*it)->getOffset() + (*it)->getType().getSize();
     }
     ops.pushSkip(type.getSize() - current_offset);
     return true;
-- 
2.43.0


From ddd8bf958c86f29ecfa613b84d8503da795adee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 013/122] fix: compiled endian swap ignores fields that are not
 declared in memory order

---
 typelib/endianness.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 2f148f1..aa63d7a 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -1,5 +1,6 @@
 #include "endianness.hh"
 #include <iostream>
+#include <algorithm>
 #include <boost/tuple/tuple.hpp>
 #include <boost/lexical_cast.hpp>
 
@@ -94,25 +95,34 @@ namespace Typelib {
     bool CompileEndianSwapVisitor::visit_ (Container const& type)
     { throw UnsupportedEndianSwap("containers"); }
 
+    static bool fieldOffsetOrdering(Field const* f0, Field const* f1)
+    { return f0->getOffset() < f1->getOffset(); }
+
     bool CompileEndianSwapVisitor::visit_ (Compound const& type)
     {
         size_t base_index = m_output_index;
 
-        typedef Compound::FieldList Fields;
-        Fields const& fields(type.getFields());
+        // The output is generated in order, regardless of the order in which
+        // the fields are declared
+        typedef std::vector<Field const*> Fields;
+        Fields fields;
+        for (Compound::FieldList::const_iterator it = type.getFields().begin();
+                it != type.getFields().end(); ++it)
+            fields.push_back(&(*it));
+        std::stable_sort(fields.begin(), fields.end(), fieldOffsetOrdering);
         Fields::const_iterator const end = fields.end();
 
         for (Fields::const_iterator it = fields.begin(); it != end; ++it)
         {
-            size_t new_index = base_index + it->getOffset();
+            size_t new_index = base_index + (*it)->getOffset();
             if (new_index < m_output_index)
                 continue;
             else if (new_index > m_output_index)
                 skip(new_index - m_output_index);
 
             m_output_index = new_index;
-            dispatch(it->getType());
-            m_output_index = new_index + it->getType().getSize();
+            dispatch((*it)->getType());
+            m_output_index = new_index + (*it)->getType().getSize();
         }
         return true;
     }
-- 
2.43.0


From 209b632425080721e0a34c077e8c53f9828153cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 014/122] fix: compiled endian swap does not account for the
 padding at the end of structures

---
 typelib/endianness.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index aa63d7a..d583660 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -124,6 +124,14 @@ namespace Typelib {
             dispatch((*it)->getType());
             m_output_index = new_index + (*it)->getType().getSize();
         }
+
+        // There might be padding at the end of the structure
+        size_t end_index = base_index + type.getSize();
+        if (end_index > m_output_index)
+        {
+            skip(end_index - m_output_index);
+            m_output_index = end_index;
+        }
         return true;
     }
 
-- 
2.43.0


From 163c08d6e0038d85a9f61385defab090267c7c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 015/122] fix: compiled endian swap crashes on zero-length
 arrays

---
 typelib/endianness.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index d583660..af248f5 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -63,6 +63,15 @@ namespace Typelib {
     { throw UnsupportedEndianSwap("pointers"); }
     bool CompileEndianSwapVisitor::visit_ (Array const& type)
     {
+        if (type.getSize() == 0)
+        {
+            // Nothing to swap. Simply make sure that the elements are supported
+            std::vector<size_t> compiled = m_compiled;
+            TypeVisitor::visit_(type);
+            m_compiled = compiled;
+            return true;
+        }
+
         if (type.getIndirection().getCategory() == Type::Array)
         {
             size_t current_size = m_compiled.size();
-- 
2.43.0


From 1f1417e092390fcf74e5bb1331df7a4d7a1b34bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 016/122] fix: CSV lines have no column for opaques

The overload in the line visitor took its value by copy and did not override
the visitor's method, so lines had fewer columns than the header.
---
 typelib/csvoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index d7b4f45..4929288 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -95,7 +95,7 @@ namespace
             return true;
         }
         using ValueVisitor::visit_;
-        bool visit_ (Value value, OpaqueType const& type)
+        bool visit_ (Value const& value, OpaqueType const& type)
         {
             display("<" + type.getName() + ">");
             return true;
-- 
2.43.0


From 96c76ed95556bddb959a4614709545d102be2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 017/122] fix: value_cast accepts values that only contain a
 numeric

value_cast on a compound, an array, a container or a pointer returned the first
numeric found inside instead of throwing BadValueCast.
---
 typelib/value_cast.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/value_cast.hh b/typelib/value_cast.hh
index 9ccf03b..579f3dc 100644
--- a/typelib/value_cast.hh
+++ b/typelib/value_cast.hh
@@ -28,8 +28,10 @@ namespace Typelib
             : ValueVisitor(false), m_found(false), m_value() {};
         T& apply(Value v)
         {
+            // Do not look for a number inside of other types
             m_found = false;
-            ValueVisitor::apply(v);
+            if (v.getType().getCategory() == Type::Numeric)
+                ValueVisitor::apply(v);
             if (!m_found)
                 throw BadValueCast();
 
-- 
2.43.0


From 06c4e639b7563421482b471e6e1005613133d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 018/122] fix: value_get_field finds fields of the elements of
 arrays

On arrays, pointers and containers, value_get_field returned a field of one of
the elements (or dereferenced an invalid pointer) instead of throwing
FieldNotFound.
---
 typelib/value.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/value.hh b/typelib/value.hh
index 9ba7e78..24ae6e6 100644
--- a/typelib/value.hh
+++ b/typelib/value.hh
@@ -121,7 +121,9 @@ namespace Typelib
         {
             m_name = name;
             m_field = Value();
-            ValueVisitor::apply(v);
+            // Only compounds have fields
+            if (v.getType().getCategory() == Type::Compound)
+                ValueVisitor::apply(v);
             if (! m_field.getData())
                 throw FieldNotFound(name);
             return m_field;
-- 
2.43.0


From 52016914556ab2fcb62fa766e342cb2ee6061272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 019/122] fix: visiting an array hides the visitor's request to
 stop

The elements after the one on which the visitor stopped were not visited, but
what follows the array was.
---
 typelib/value.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typelib/value.cc b/typelib/value.cc
index 5c1def3..8cf4a4a 100644
--- a/typelib/value.cc
+++ b/typelib/value.cc
@@ -118,15 +118,19 @@ namespace Typelib
         uint8_t*& element = m_dispatcher->m_stack.back();
 
         Type const& array_type(a.getIndirection());
+        bool result = true;
         for (size_t i = 0; i < a.getDimension(); ++i)
         {
             element = base + array_type.getSize() * i;
             if (! m_dispatcher->TypeVisitor::visit_(array_type))
+            {
+                result = false;
                 break;
+            }
         }
 
         m_dispatcher->m_stack.pop_back();
-        return true;
+        return result;
     }
     bool ValueVisitor::visit_(Value const& v, Container const& c)
     { return c.visit(v.getData(), *this); }
-- 
2.43.0


From 689108621a86fb8fcd83b51b1e738034e0d3715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 020/122] fix: names of pointers to arrays and to templates are
 refused as invalid

Types such as /int[2]* or /std/vector</int>* could not be registered. An array
could not be followed by another template argument either.
---
 typelib/typename.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index b4a8bc6..6ab5d82 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -124,6 +124,10 @@ namespace Typelib
                         return make_pair(false, i);
                 }
 
+                // pointers to templates
+                while (i + 1 < s.length() && s[i + 1] == '*')
+                    i++;
+
                 start_pos = i + 1;
                 if (i + 1 < s.length())
                 {
@@ -151,12 +155,16 @@ namespace Typelib
                 if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
                     return make_pair(false, start_pos);
 
+                // pointers to arrays
+                while (i + 1 < s.length() && s[i + 1] == '*')
+                    i++;
+
                 start_pos = i + 1;
                 if (i + 1 < s.length())
                 {
                     if (s[i + 1] == '/')
                         i++;
-                    else if (s[i + 1] != '>' && s[i + 1] != '[')
+                    else if (s[i + 1] != '>' && s[i + 1] != '[' && s[i + 1] != ',')
                         return make_pair(false, i + 1);
                 }
             }
-- 
2.43.0


From 4dfa50dc2365a4f44ea75891dda617360de05308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 021/122] fix: relative names depend on the order of additions
 and lose imports

A type added in a parent of the default namespace could hide the one of the
default namespace, depending on their names, until the namespace was set again.
Removing an alias dropped the imported namespaces.
---
 typelib/registry.cc | 62 +++++++++++++++++++++++++--------------------
 typelib/registry.hh | 12 +++++++++
 2 files changed, 46 insertions(+), 28 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 3ed6c94..b2cc50f 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -66,14 +66,23 @@ namespace Typelib
         for (TypeMap::iterator it = m_global.begin(); it != m_global.end(); ++it)
             m_current.insert( make_pair(it->first, it->second) );
 
-        importNamespace(NamespaceMarkString);
-        std::string cur_space = NamespaceMarkString;
-        NameTokenizer tokens( m_namespace );
-        NameTokenizer::const_iterator ns_it = tokens.begin();
-        for (; ns_it != tokens.end(); ++ns_it)
+        SearchPath path;
+        path.swap(m_search_path);
+        for (SearchPath::const_iterator it = path.begin(); it != path.end(); ++it)
+            importNamespace(it->first, it->second);
+    }
+
+    void Registry::updateCurrentName(std::string const& relative_name)
+    {
+        m_current.erase(relative_name);
+        for (SearchPath::const_iterator it = m_search_path.begin(); it != m_search_path.end(); ++it)
         {
-            cur_space += *ns_it + NamespaceMarkString;
-            importNamespace(cur_space, true);
+            TypeMap::const_iterator global_it = m_global.find(it->first + relative_name);
+            if (global_it == m_global.end())
+                continue;
+            if (it->second)
+                m_current.erase(relative_name);
+            m_current.insert(make_pair(relative_name, global_it->second));
         }
     }
 
@@ -84,6 +93,18 @@ namespace Typelib
             return false;
 
         m_namespace = getNormalizedNamespace(space);
+
+        std::string cur_space = NamespaceMarkString;
+        m_search_path.clear();
+        m_search_path.push_back(make_pair(cur_space, false));
+        NameTokenizer tokens( m_namespace );
+        NameTokenizer::const_iterator ns_it = tokens.begin();
+        for (; ns_it != tokens.end(); ++ns_it)
+        {
+            cur_space += *ns_it + NamespaceMarkString;
+            m_search_path.push_back(make_pair(cur_space, true));
+        }
+
         updateCurrentNameMap();
         return true;
     }
@@ -92,6 +113,7 @@ namespace Typelib
     {
         const std::string norm_name(getNormalizedNamespace(name));
         const int         norm_length(norm_name.length());
+        m_search_path.push_back(make_pair(norm_name, erase_existing));
 
         TypeMap::const_iterator it = m_global.lower_bound(norm_name);
 
@@ -342,28 +364,12 @@ namespace Typelib
         m_global.insert (make_pair(name, regtype));
         m_current.insert(make_pair(name, regtype));
 
-        NameTokenizer tokens( m_namespace );
-        NameTokenizer::const_iterator ns_it = tokens.begin();
-        std::string cur_space = NamespaceMarkString;
-        while(true)
+        // The new type might hide, or be hidden by, the types of the other
+        // namespaces of the search path
+        for (SearchPath::const_iterator it = m_search_path.begin(); it != m_search_path.end(); ++it)
         {
-            if (name.size() <= cur_space.size() || string(name, 0, cur_space.size()) != cur_space)
-                break;
-
-            string cur_name  = getRelativeName(name, cur_space);
-
-            // Check if there is already a type with the same relative name
-            TypeMap::iterator it = m_current.find(cur_name);
-            if (it == m_current.end() || !nameSort(it->second.type->getName(), name))
-            {
-                m_current.erase(cur_name);
-                m_current.insert(make_pair(cur_name, regtype));
-            }
-
-            if (ns_it == tokens.end())
-                break;
-            cur_space += *ns_it + NamespaceMarkString;
-            ++ns_it;
+            if (isInNamespace(name, it->first, true))
+                updateCurrentName(getRelativeName(name, it->first));
         }
     }
 
diff --git a/typelib/registry.hh b/typelib/registry.hh
index 79411c8..a40f88c 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -3,6 +3,7 @@
 
 #include "typemodel.hh"
 #include <boost/shared_ptr.hpp>
+#include <list>
 #include <stdexcept>
 
 namespace Typelib
@@ -109,6 +110,14 @@ namespace Typelib
         NameMap                 m_current;
         std::string             m_namespace;
 
+        /** The namespaces in which relative names are searched, in order. The
+         * flag is true if the names of this namespace take precedence over the
+         * ones of the previous namespaces
+         */
+        typedef std::list< std::pair<std::string, bool> > SearchPath;
+        /** The path, starting by the default namespace and its parents */
+        SearchPath              m_search_path;
+
         static bool isPersistent(std::string const& name, Type const& type, std::string const& source_id);
         void add(std::string const& name, Type* new_type, bool persistent, std::string const& source_id);
 
@@ -121,6 +130,9 @@ namespace Typelib
          */
         void updateCurrentNameMap();
 
+        /** Updates the type \c relative_name refers to in +m_current+ */
+        void updateCurrentName(std::string const& relative_name);
+
     public:
         typedef RegistryIterator Iterator;
 
-- 
2.43.0


From 0556ff4c6c9037c64d4ba5d399eb96db43c1351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 022/122] fix: derived types are not found from names relative
 to a parent namespace

has() and build() looked for the base type in the default namespace only,
whereas get() also looks in the parent and imported namespaces.
---
 typelib/registry.cc    | 4 ++--
 typelib/typebuilder.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index b2cc50f..2d264d4 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -286,7 +286,7 @@ namespace Typelib
         if (! build_if_missing)
             return false;
 
-        const Type* base_type = TypeBuilder::getBaseType(*this, getFullName(name));
+        const Type* base_type = TypeBuilder::getBaseType(*this, name);
         return base_type;
     }
 
@@ -296,7 +296,7 @@ namespace Typelib
         if (type)
             return type;
 
-        return TypeBuilder::build(*this, getFullName(name), size);
+        return TypeBuilder::build(*this, name, size);
     }
 
     Type* Registry::get_(const std::string& name)
diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index bcec4a1..f93d1ae 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -121,7 +121,7 @@ namespace Typelib
         ParsedTypename result;
         ModifierList& modlist(result.second);
         int end = full_name.size() - 1;
-        while (end > 0)
+        while (end >= 0)
         {
             Modifier new_mod;
             if (full_name[end] == ']')
-- 
2.43.0


From bb930a587029b18461869907d275c2d911a7f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 023/122] fix: removing a type makes the types it was hiding
 unreachable

The relative names of the removed types were dropped, even if they refer to
another type in a parent namespace.
---
 typelib/registry.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 2d264d4..854ef24 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -656,13 +656,8 @@ namespace Typelib
             else ++global_it;
         }
 
-        NameMap::iterator current_it = m_current.begin(), current_end = m_current.end();
-        while (current_it != current_end)
-        {
-            if (types.count(current_it->second.type))
-                m_current.erase(current_it++);
-            else ++current_it;
-        }
+        // Types that were hidden by the removed ones become visible
+        updateCurrentNameMap();
 
         return types;
     }
-- 
2.43.0


From 93827114881c937acd064c8f193bff8ec422b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 024/122] fix: merging gives the source ID of an alias to the
 aliased type

---
 typelib/registry.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 854ef24..b8bd923 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -209,7 +209,13 @@ namespace Typelib
 
             string source_id = other_it.getSource();
             if (!source_id.empty() && it.getSource().empty())
-                setSourceID(*it, source_id);
+            {
+                // The source of an alias is not the one of the aliased type
+                if (it.isAlias())
+                    m_global.find(it.getName())->second.source_id = source_id;
+                else
+                    setSourceID(*it, source_id);
+            }
         }
     }
 
-- 
2.43.0


From f149e0ee2170aa1f6923f8ff0594211e5c6e6d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 025/122] fix: merging derived types of a type known under
 another name fails

If the target registry knows /X as an alias of /Y and already has /Y[2], merging
a registry with /X and /X[2] raised AlreadyDefined.
---
 typelib/typemodel.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 9998ece..d3b9731 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -257,7 +257,16 @@ namespace Typelib
         if (old_type) return *old_type;
         // First, make sure the indirection is already merged and then merge
         // this type
-        getIndirection().merge(registry, stack);
+        Type const& indirect_type = getIndirection().merge(registry, stack);
+
+        // The target registry might know the indirection under another name
+        std::string target_name = getIndirectTypeName(indirect_type.getName());
+        if (target_name != getName() && !target_name.empty() && registry.has(target_name, false))
+        {
+            registry.alias(target_name, getName(), false);
+            old_type = try_merge(registry, stack);
+            if (old_type) return *old_type;
+        }
 
         return Type::merge(registry, stack);
     }
-- 
2.43.0


From 274342f29a704486cb55664c76217b6ebdab5945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 026/122] fix: a failed merge leaves dangling types in the
 target registry

When a field of a recursive compound could not be merged, the compound was
deleted but the pointers to it stayed in the target registry.
---
 typelib/registry.cc  |  9 +++++++++
 typelib/typemodel.cc | 23 +++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index b8bd923..9a6468c 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -154,6 +154,15 @@ namespace Typelib
 
     void Registry::merge(Registry const& registry)
     {
+        // Look for mismatches first. We would otherwise leave partially merged
+        // types behind
+        for (Iterator it = registry.begin(); it != registry.end(); ++it)
+        {
+            Type const* old_type = get(it.getName());
+            if (old_type && !old_type->isSame(*it))
+                throw DefinitionMismatch(it.getName());
+        }
+
         Typelib::Type::RecursionStack stack;
 
         // Merge non aliased types. Aliases are never used by type model classes
diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index d3b9731..1992aec 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -89,8 +89,31 @@ namespace Typelib
     bool Type::do_compare(Type const& other, bool equality, ComparisonStack& stack) const
     { return (getSize() == other.getSize() && getCategory() == other.getCategory()); }
 
+    namespace
+    {
+        /** Verifies that merging \c type, and all that it depends on, into
+         * \c registry does not lead to a mismatch */
+        void check_mergeable(Type const& type, Registry const& registry, std::set<Type const*>& done)
+        {
+            if (!done.insert(&type).second)
+                return;
+
+            Type const* old_type = registry.get(type.getName());
+            if (old_type && !old_type->isSame(type))
+                throw DefinitionMismatch(type.getName());
+
+            std::set<Type const*> dependencies = type.dependsOn();
+            for (std::set<Type const*>::const_iterator it = dependencies.begin(); it != dependencies.end(); ++it)
+                check_mergeable(**it, registry, done);
+        }
+    }
+
     Type const& Type::merge(Registry& registry) const
     {
+        // Do it first, as we would otherwise leave partially merged types behind
+        std::set<Type const*> checked;
+        check_mergeable(*this, registry, checked);
+
         RecursionStack stack;
         return merge(registry, stack);
     }
-- 
2.43.0


From 250e449cbadc1e702356d997c1c3e614ad1d61cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 027/122] fix: the minimal registry of a type makes all aliases
 persistent

---
 typelib/registry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 9a6468c..85de68c 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -244,7 +244,7 @@ namespace Typelib
             {
                 if (!it.isAlias()) continue;
                 if (result->has(it->getName(), false))
-                    result->alias(it->getName(), it.getName());
+                    result->alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
             }
         }
 
-- 
2.43.0


From 8bf25f372032419880a169135ec2343a8b599409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 028/122] fix: resizing registries with recursive types never
 ends

---
 typelib/typemodel.cc | 7 +++++++
 typelib/typemodel.hh | 1 +
 2 files changed, 8 insertions(+)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 1992aec..71a2320 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -588,6 +588,13 @@ namespace Typelib
         return Pointer::getPointerName(inside_type_name);
     }
 
+    bool Pointer::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
+    {
+        // The size of a pointer does not depend on what it points to. Moreover,
+        // the pointed-to type might (recursively) depend on this pointer
+        return Type::do_resize(registry, new_sizes);
+    }
+
     Type* Pointer::do_merge(Registry& registry, RecursionStack& stack) const
     {
         // The pointed-to type has already been inserted in the repository by
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index e18d323..4e17f3b 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -503,6 +503,7 @@ namespace Typelib
         virtual std::string getIndirectTypeName(std::string const& inside_name) const;
 
     private:
+        virtual bool do_resize(Registry& into, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
     };
 
-- 
2.43.0


From bdc08a2a00572b55762485bfa0be57be6218a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 029/122] fix: resizing a type that is not in the registry
 crashes

---
 typelib/registry.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 85de68c..f2eb2d9 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -599,13 +599,17 @@ namespace Typelib
         for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
                 it != new_sizes.end(); ++it)
         {
-            Type& t = *get_(it->first);
-            sizes.insert(make_pair(t.getName(),
-                        make_pair(t.getSize(), it->second)
+            Type* t = get_(it->first);
+            if (!t)
+                throw Undefined(it->first);
+            sizes.insert(make_pair(t->getName(),
+                        make_pair(t->getSize(), it->second)
                         ));
-            t.setSize(it->second);
         }
 
+        for (SizeMap::const_iterator it = sizes.begin(); it != sizes.end(); ++it)
+            get_(it->first)->setSize(it->second.second);
+
         for(Iterator it = begin(); it != end(); ++it)
         {
             if (it.isAlias()) continue;
-- 
2.43.0


From f190728a02fc4fe3aca4136252f58f0cff6720fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 030/122] fix: the fields of a resized compound are not
 relocated when their size changes too

---
 typelib/registry.cc  |  3 ---
 typelib/typemodel.cc | 15 ++++++++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index f2eb2d9..db9b059 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -607,9 +607,6 @@ namespace Typelib
                         ));
         }
 
-        for (SizeMap::const_iterator it = sizes.begin(); it != sizes.end(); ++it)
-            get_(it->first)->setSize(it->second.second);
-
         for(Iterator it = begin(); it != end(); ++it)
         {
             if (it.isAlias()) continue;
diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 71a2320..7165e25 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -152,8 +152,21 @@ namespace Typelib
     bool Type::resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
         size_t old_size = getSize();
-        if (new_sizes.count(getName()))
+        std::map<std::string, std::pair<size_t, size_t> >::const_iterator it =
+            new_sizes.find(getName());
+        if (it != new_sizes.end())
+        {
+            size_t new_size = it->second.second;
+            if (old_size != new_size)
+            {
+                // This is one of the types for which a size has been given, and
+                // it has not been processed yet. What it is made of might
+                // change as well
+                do_resize(registry, new_sizes);
+                setSize(new_size);
+            }
             return true;
+        }
         else if (do_resize(registry, new_sizes))
         {
             new_sizes.insert(make_pair(getName(), make_pair(old_size, getSize()) ));
-- 
2.43.0


From a49c2c931df450c3af1582ba3d1e2701e51334f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 031/122] fix: vectors keep using the layout their elements had
 before a resize

---
 lang/csupport/containers.cc | 7 +++++++
 lang/csupport/containers.hh | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index bf30b06..0131dda 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -44,6 +44,13 @@ MemoryLayout Vector::getElementLayout(Type const& element_t)
     }
 }
 
+bool Vector::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
+{
+    bool result = Container::do_resize(registry, new_sizes);
+    element_layout = getElementLayout(getIndirection());
+    return result;
+}
+
 size_t Vector::getElementCount(void const* ptr) const
 {
     size_t byte_count = reinterpret_cast< std::vector<int8_t> const* >(ptr)->size();
diff --git a/lang/csupport/containers.hh b/lang/csupport/containers.hh
index 75a6d6f..e8761e0 100644
--- a/lang/csupport/containers.hh
+++ b/lang/csupport/containers.hh
@@ -12,6 +12,8 @@ class Vector : public Typelib::Container
     void erase(std::vector<uint8_t>* ptr, size_t idx) const;
     std::string getIndirectTypeName(std::string const& element_name) const;
 
+    bool do_resize(Typelib::Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
+
     Typelib::MemoryLayout element_layout;
 
 public:
-- 
2.43.0


From 41a039aa376a77e6146be1beb7b6978ea4599b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:01 +0000
Subject: [PATCH 032/122] fix: resizing breaks compounds whose fields are not
 declared in memory order

---
 typelib/typemodel.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 7165e25..0678318 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -435,11 +435,21 @@ namespace Typelib
         return result;
     }
 
+    static bool offsetOrdering(Field const* f0, Field const* f1)
+    { return f0->getOffset() < f1->getOffset(); }
     bool Compound::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
-        size_t global_offset = 0;
+        // What moves a field is the growth of the fields that are before it in
+        // memory, which might not be the order of declaration
+        std::vector<Field*> fields;
         for (FieldList::iterator it = m_fields.begin(); it != m_fields.end(); ++it)
+            fields.push_back(&*it);
+        std::stable_sort(fields.begin(), fields.end(), offsetOrdering);
+
+        size_t global_offset = 0;
+        for (std::vector<Field*>::iterator field_it = fields.begin(); field_it != fields.end(); ++field_it)
         {
+            Field* it = *field_it;
             it->setOffset(it->getOffset() + global_offset);
 
             Type& field_type = registry.get_(it->getType());
-- 
2.43.0


From 3b0d8e3ce980b32fbde15bed70880d5ed84719bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 033/122] fix: null types are the same as any type of that name

---
 typelib/typemodel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 4e17f3b..158b103 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -262,7 +262,7 @@ namespace Typelib
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
         virtual bool do_compare(Type const& other, bool equality, ComparisonStack& stack) const
-        { return other.getName() == getName(); }
+        { return Type::do_compare(other, equality, stack) && other.getName() == getName(); }
 
     private:
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new NullType(*this); }
-- 
2.43.0


From ecdbfc9607c1be87c6fe7c2a431cfc0888bac47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 034/122] fix: comparing registries compares each type with the
 first one

---
 typelib/registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index db9b059..2d89f3f 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -583,9 +583,11 @@ namespace Typelib
 
         while (left_it != left_end)
         {
+            if (left_it->first != right_it->first)
+                return false;
             if (!left_it->second.type->isSame(*right_it->second.type))
                 return false;
-            left_it++; left_end++;
+            left_it++; right_it++;
         }
         return true;
     }
-- 
2.43.0


From 3dd7a05f77e0bb6a9278c2d386ff03f3906b6b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 035/122] fix: names with an unmatched '>' or ',' are valid
 whatever follows

---
 typelib/typename.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index 6ab5d82..aa223d4 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -185,7 +185,9 @@ namespace Typelib
     {
         if (name.empty())
             return false;
-        return isValidTypename(name, 0, absolute, false).first;
+        // a template mark or separator outside any template ends the parsing early
+        pair<bool, int> result = isValidTypename(name, 0, absolute, false);
+        return result.first && static_cast<size_t>(result.second) == name.length();
     }
 
     bool isValidNamespace(const string& name, bool absolute)
-- 
2.43.0


From 36b0dc0166dff311ede77451caf203a0d408e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 036/122] fix: anything is accepted after the first '*' of a
 type name

---
 typelib/typename.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index aa223d4..903e067 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -59,7 +59,11 @@ namespace Typelib
 
         size_t modifiers = s.find_first_of("*[");
         if (modifiers != string::npos)
+        {
+            if (s.find_first_not_of('*', modifiers) != string::npos)
+                return false;
             return isValidIdentifier(string(s, pos, modifiers - pos));
+        }
         else
             return isValidIdentifier(string(s, pos));
 
-- 
2.43.0


From ad03e5a0bbeec76abe568e0d0db0fbd697f3380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 037/122] fix: array dimensions that are not closed are
 accepted in relative names and in template arguments

---
 typelib/typename.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index 903e067..87dd655 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -147,17 +147,13 @@ namespace Typelib
                 if (start_pos != i && !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
                     return make_pair(false, i);
 
-                if (i + 1 == s.length())
-                    return make_pair(false, i);
-
                 start_pos = i + 1;
-            }
-            else if (s[i] == ']')
-            {
-                if (start_pos == i)
+                size_t end_pos = s.find(']', start_pos);
+                if (end_pos == string::npos || end_pos == start_pos)
                     return make_pair(false, start_pos);
-                if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
+                if (string(s, start_pos, end_pos - start_pos).find_first_not_of("0123456789") != string::npos)
                     return make_pair(false, start_pos);
+                i = end_pos;
 
                 // pointers to arrays
                 while (i + 1 < s.length() && s[i + 1] == '*')
-- 
2.43.0


From 12de142e614fc832e88ba9dacff6ef391e3bbd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 038/122] fix: getRelativeName() reads before the start of an
 empty namespace

---
 typelib/typename.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index 87dd655..15fe5d7 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -236,10 +236,7 @@ namespace Typelib
 
     std::string getRelativeName(std::string const& name, std::string const& ns)
     {
-        size_t size = ns.length();
-        if (*ns.rbegin() != '/')
-            size += 1;
-        return std::string(name, size, string::npos);
+        return std::string(name, getNormalizedNamespace(ns).length(), string::npos);
     }
 
     std::string getMinimalPathTo(std::string const& full_name, std::string const& ns)
-- 
2.43.0


From ae2e871b86be78c2c1a4424e792cd50f73fd5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 039/122] fix: getMinimalPathTo() returns ambiguous paths

---
 typelib/typename.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index 15fe5d7..228d185 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -1,5 +1,6 @@
 #include "typename.hh"
 #include <boost/static_assert.hpp>
+#include <algorithm>
 #include <iostream>
 
 using namespace std;
@@ -275,9 +276,16 @@ namespace Typelib
         for (++remainder_it; remainder_it != tok1.end(); ++remainder_it)
             result += Typelib::NamespaceMarkString + *remainder_it;
 
-        while (!common_tokens.empty() && ns.find(result) != string::npos)
+        // The first name of the path must not be found in any of the namespaces
+        // that are deeper than the common one either
+        string first = *it1;
+        list<string> deeper(it2, list<string>::const_iterator(tok2.end()));
+        while (!common_tokens.empty() &&
+               (ns.find(result) != string::npos || find(deeper.begin(), deeper.end(), first) != deeper.end()))
         {
-            result = common_tokens.back() + Typelib::NamespaceMarkString + result;
+            deeper.push_front(first);
+            first  = common_tokens.back();
+            result = first + Typelib::NamespaceMarkString + result;
             common_tokens.pop_back();
         }
         if (common_tokens.empty())
-- 
2.43.0


From 386ffc4db1d55d5b27902205e09cdd519a55c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 040/122] fix: array dimensions without any element type are
 valid names

---
 typelib/typename.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index 228d185..cc9c032 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -101,7 +101,7 @@ namespace Typelib
 
     static pair<bool, int> isValidTypename(std::string const& s, int pos, bool absolute, bool accept_integers)
     {
-        unsigned int start_pos = pos;
+        unsigned int start_pos = pos, first_pos = pos;
         if (s[pos] == '/')
             pos++;
 
@@ -145,7 +145,7 @@ namespace Typelib
             else if (s[i] == '[')
             {
                 // start_pos == i if we are parsing an array of templates
-                if (start_pos != i && !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
+                if ((start_pos != i || i == first_pos) && !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
                     return make_pair(false, i);
 
                 start_pos = i + 1;
-- 
2.43.0


From 5b05fa5c628c5505d724f49a0dcce956239ba71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 041/122] fix: any text is accepted as an array dimension when
 building types

---
 typelib/typebuilder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index f93d1ae..923ea14 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -129,8 +129,13 @@ namespace Typelib
                 size_t start = full_name.find_last_of('[', end);
                 if (start == string::npos)
                     throw InvalidIndirectName(full_name + " is not a valid type name: array definition missing opening bracket at character " + boost::lexical_cast<std::string>(end));
+                string dimension(full_name, start + 1, end - start - 1);
+                if (dimension.empty() || dimension.find_first_not_of("0123456789") != string::npos)
+                    throw InvalidIndirectName(full_name + " is not a valid type name: " + dimension + " is not a valid array dimension");
                 new_mod.category = Type::Array;
-                new_mod.size = atoi(&full_name[start] + 1);
+                try { new_mod.size = boost::lexical_cast<int>(dimension); }
+                catch(boost::bad_lexical_cast&)
+                { throw InvalidIndirectName(full_name + " is not a valid type name: array dimension " + dimension + " is too big"); }
                 end = start - 1;
                 modlist.push_front(new_mod);
             }
-- 
2.43.0


From 44d95e13f3f11cf8e57bdef723c6c537cc03d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 042/122] fix: the TLB exporter does not escape '&', '"' and
 blanks in attributes

---
 lang/tlb/export.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 19e6185..446e98c 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -50,15 +50,21 @@ namespace
 
     std::string xmlEscape(std::string const& source)
     {
-        string result = source;
-        size_t pos = result.find_first_of("<>");
-        while (pos != string::npos)
+        string result;
+        for (string::const_iterator it = source.begin(); it != source.end(); ++it)
         {
-            if (result[pos] == '<')
-                result.replace(pos, 1, "&lt;");
-            else if (result[pos] == '>')
-                result.replace(pos, 1, "&gt;");
-            pos = result.find_first_of("<>");
+            switch (*it)
+            {
+                case '<': result += "&lt;"; break;
+                case '>': result += "&gt;"; break;
+                case '&': result += "&amp;"; break;
+                case '"': result += "&quot;"; break;
+                // parsers replace these by spaces in attributes
+                case '\n': result += "&#10;"; break;
+                case '\r': result += "&#13;"; break;
+                case '\t': result += "&#9;"; break;
+                default: result += *it;
+            }
         }
 
         return result;
-- 
2.43.0


From 8c72f5ecc95f5804d41828f9d4104fc887bd2843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 043/122] fix: the TLB exporter does not escape the names of
 numerics, enums, null types, fields, symbols and metadata keys

---
 lang/tlb/export.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 446e98c..1f77ee1 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -80,7 +80,7 @@ namespace
         MetaData::Map const& map = metadata.get();
         for (MetaData::Map::const_iterator it = map.begin(); it != map.end(); ++it)
         {
-            std::string key = it->first;
+            std::string key = xmlEscape(it->first);
             MetaData::Values values = it->second;
             if (values.empty())
             {
@@ -127,7 +127,7 @@ namespace
     {
         m_stream
             << m_indent
-            << "<field name=\"" << field.getName() << "\""
+            << "<field name=\"" << xmlEscape(field.getName()) << "\""
             << " type=\""   << xmlEscape(field.getType().getName())  << "\""
             << " offset=\"" << field.getOffset() << "\">\n";
         m_stream << m_indent << emitMetaData(field.getMetaData()) << "\n";
@@ -156,7 +156,7 @@ namespace
     bool TlbExportVisitor::visit_(Numeric const& type)
     {
         m_stream
-            << "<numeric name=\"" << type.getName() << "\" "
+            << "<numeric name=\"" << xmlEscape(type.getName()) << "\" "
             << "category=\"" << getStringCategory(type.getNumericCategory()) << "\" "
             << "size=\"" << type.getSize() << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
@@ -166,7 +166,7 @@ namespace
     }
     bool TlbExportVisitor::visit_ (NullType const& type)
     {
-        m_stream << "<null " << " name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<null " << " name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</null>";
         return true;
@@ -213,11 +213,11 @@ namespace
     bool TlbExportVisitor::visit_ (Enum const& type)
     {
         Enum::ValueMap const& values = type.values();
-        m_stream << "<enum name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         { Indent indenter(m_indent);
             Enum::ValueMap::const_iterator it;
             for (it = values.begin(); it != values.end(); ++it)
-                m_stream << m_indent << "<value symbol=\"" << it->first << "\" value=\"" << it->second << "\"/>\n";
+                m_stream << m_indent << "<value symbol=\"" << xmlEscape(it->first) << "\" value=\"" << it->second << "\"/>\n";
         }
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</enum>";
-- 
2.43.0


From d58ba515f3e484b5cf0839d4a56c9eefe99cfb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 044/122] fix: metadata values that contain ']]>' break the TLB
 files

---
 lang/tlb/export.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 1f77ee1..e788398 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -70,6 +70,16 @@ namespace
         return result;
     }
 
+    // A CDATA section cannot contain its own end marker, which is therefore
+    // split between two sections
+    std::string cdataEscape(std::string const& source)
+    {
+        string result = source;
+        for (size_t pos = result.find("]]>"); pos != string::npos; pos = result.find("]]>", pos + 14))
+            result.replace(pos, 3, "]]]]><![CDATA[>");
+        return result;
+    }
+
     std::string TlbExportVisitor::emitMetaData(Type const& type) const
     {
         return emitMetaData(type.getMetaData());
@@ -89,7 +99,7 @@ namespace
             else
             {
                 for (MetaData::Values::const_iterator it_value = values.begin(); it_value != values.end(); ++it_value)
-                    stream << "<metadata key=\"" << key << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
+                    stream << "<metadata key=\"" << key << "\"><![CDATA[" << cdataEscape(*it_value) << "]]></metadata>\n";
             }
         }
         return stream.str();
-- 
2.43.0


From f859290ae57a41cf5c28a652e2a7cf56ed4151ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 045/122] fix: the source IDs of aliases are lost in TLB files

---
 lang/tlb/export.cc | 5 ++++-
 lang/tlb/import.cc | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index e788398..3d96710 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -262,7 +262,10 @@ bool TlbExport::save
     {
         stream << "  <alias "
             "name=\"" << xmlEscape(type.getName()) << "\" "
-            "source=\"" << xmlEscape(type->getName()) << "\"/>\n";
+            "source=\"" << xmlEscape(type->getName()) << "\"";
+        if (!type.getSource().empty())
+            stream << " source_id=\"" << xmlEscape(type.getSource()) << "\"";
+        stream << "/>\n";
     }
     else
     {
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 9a6b46e..a1eaa59 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -107,7 +107,7 @@ namespace
         }
 
         void alias (TypeNode const& type, string const& new_name)
-        { m_registry.alias(new_name, type.name); }
+        { m_registry.alias(new_name, type.name, type.file); }
 
         void build(TypeMap const& map)
         {
-- 
2.43.0


From d00c1722148c561695b1128db17886cb3bc9d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 046/122] fix: the source IDs of containers are not loaded from
 TLB files

---
 lang/tlb/import.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index a1eaa59..c9419e5 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -222,6 +222,8 @@ namespace
             factory.getRegistry().get_(*container).setSize(size);
         }
         loadMetaData(node, container->getMetaData());
+        if (!node.file.empty())
+            factory.getRegistry().setSourceID(*container, node.file);
         return container;
     }
     Type const* load_enum(TypeNode const& node, Factory& factory)
-- 
2.43.0


From 74527ba1f5b30691521c57d403618ea1dcb83641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 047/122] fix: types leak when a TLB file is refused

---
 lang/tlb/import.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index c9419e5..588a683 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -8,6 +8,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 // Helpers
 namespace
@@ -102,8 +103,10 @@ namespace
 
         void insert(TypeNode const& type, Type* object)
         {
+            std::unique_ptr<Type> guard(object);
             loadMetaData(type, object->getMetaData());
             m_registry.add(object, type.file);
+            guard.release();
         }
 
         void alias (TypeNode const& type, string const& new_name)
@@ -228,7 +231,7 @@ namespace
     }
     Type const* load_enum(TypeNode const& node, Factory& factory)
     {
-        Enum* type = new Enum(node.name);
+        std::unique_ptr<Enum> type(new Enum(node.name));
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
         {
             if (xmlStrcmp(xml->name, reinterpret_cast<const xmlChar*>("value")))
@@ -239,8 +242,9 @@ namespace
             type->add(symbol, value);
         }
 
-        factory.insert(node, type);
-        return type;
+        Enum* result = type.release();
+        factory.insert(node, result);
+        return result;
     }
     Type const* load_alias(TypeNode const& node, Factory& factory)
     {
@@ -253,7 +257,7 @@ namespace
 
     Type const* load_compound(TypeNode const& node, Factory& factory)
     {
-        Compound* compound = new Compound(node.name);
+        std::unique_ptr<Compound> compound(new Compound(node.name));
         size_t size = getAttribute<size_t>(node.xml, "size");
 
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
@@ -273,8 +277,9 @@ namespace
 
         compound->normalizeFieldOrder();
         compound->setSize(size);
-        factory.insert(node, compound);
-        return compound;
+        Compound* result = compound.release();
+        factory.insert(node, result);
+        return result;
     }
 }
 
-- 
2.43.0


From 11b9d5ba21f282164406b86473d2155ddbd7af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 048/122] fix: negative sizes and offsets are accepted in TLB
 files

---
 lang/tlb/import.cc   | 4 ++--
 lang/tlb/xmltools.hh | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 588a683..bf3f981 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -208,9 +208,9 @@ namespace
         Type const* indirect = factory.build(indirect_name);
         string kind          = getAttribute<string>(node.xml, "kind");
         bool has_size = false;
-        int size = 0;
+        size_t size = 0;
         try {
-            size = getAttribute<int>(node.xml, "size");
+            size = getAttribute<size_t>(node.xml, "size");
             has_size = true;
         }
         catch(Parsing::MissingAttribute&) {}
diff --git a/lang/tlb/xmltools.hh b/lang/tlb/xmltools.hh
index bb5a3a7..0aa53fb 100644
--- a/lang/tlb/xmltools.hh
+++ b/lang/tlb/xmltools.hh
@@ -32,6 +32,15 @@ namespace
     template<>
     std::string getAttribute<std::string>(xmlNodePtr type, const char* att_name)
     { return getStringAttribute(type, att_name); }
+    // lexical_cast accepts negative numbers when converting to unsigned types
+    template<>
+    size_t getAttribute<size_t>(xmlNodePtr type, const char* att_name)
+    {
+        std::string value = getStringAttribute(type, att_name);
+        if (!value.empty() && value[0] == '-')
+            throw Typelib::ImportError("", "invalid value " + value + " for attribute " + att_name);
+        return boost::lexical_cast<size_t>(value);
+    }
 }
 
 #endif
-- 
2.43.0


From 5346e8a0679b67103f61069039984fb47982820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 049/122] fix: loading a container under another name modifies
 the one that is already in the registry

---
 lang/tlb/import.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index bf3f981..23b53d3 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -215,7 +215,12 @@ namespace
         }
         catch(Parsing::MissingAttribute&) {}
 
+        size_t registry_size = factory.getRegistry().size();
         Type const* container = &Container::createContainer(factory.getRegistry(), kind, *indirect);
+        // Do not modify a container which was already in the registry
+        if (factory.getRegistry().size() == registry_size)
+            return container;
+
         // We use zero size to indicate that the natural platform size should be
         // used
         if (has_size && size != 0)
-- 
2.43.0


From 216875f3cb1447689cdf119cf5f40e2514c93a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 050/122] fix: the IDL exporter cannot be used twice

---
 lang/idl/export.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 859e4ba..d54b912 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -483,6 +483,13 @@ void IDLExport::save
     m_opaque_as_any  = config.get<bool>("opaque_as_any", false);
     list<string> selection = config.get< list<string> >("selected");
     m_selected_types = set<string>(selection.begin(), selection.end());
+
+    // Start afresh: this exporter might have been used already, and that export
+    // might have been interrupted by an exception
+    m_namespace = "/";
+    m_indent.clear();
+    m_typedefs.clear();
+    m_exported_typedefs.clear();
     return Exporter::save(stream, config, type);
 }
 
-- 
2.43.0


From 6e63eb824bdf969076bcd95031140e168e06147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 051/122] fix: the IDL exporter exports builtin types and
 containers as blobs

---
 lang/idl/export.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index d54b912..146dfce 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -596,14 +596,19 @@ bool IDLExport::save
         // in a temporary ostringstream and change namespace only if some output
         // has actually been generated
 
-        if (m_blob_threshold && static_cast<int>(type->getSize()) > m_blob_threshold)
+        // Only the types that are declared under their own name can be replaced
+        // by a blob: numeric types and strings are IDL builtins, and the size of
+        // a container is not the size of its contents
+        Type::Category category = type->getCategory();
+        bool can_be_blob = (category == Type::Compound || category == Type::Enum);
+        if (can_be_blob && m_blob_threshold && static_cast<int>(type->getSize()) > m_blob_threshold)
         {
             string target_namespace = getIDLAbsoluteNamespace(type.getNamespace(), *this);
             size_t ns_size = namespaceIndentLevel(target_namespace);
             string indent_string = string(ns_size * 4, ' ');
 
             adaptNamespace(stream, target_namespace);
-            stream << indent_string << "typedef sequence<octet> " << type->getBasename() << ";\n";
+            stream << indent_string << "typedef sequence<octet> " << normalizeIDLName(type->getBasename()) << ";\n";
             return true;
         }
         else
-- 
2.43.0


From a06a47fb2b37e221a797c6cdc4ac6d3cd7849a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 052/122] fix: some template names are exported to IDL as
 invalid identifiers

---
 lang/idl/export.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 146dfce..3a35f5b 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -50,7 +50,7 @@ namespace
     static string normalizeIDLName(std::string const& name) {
         unsigned int template_mark;
         string result = name;
-        while ((template_mark = result.find_first_of("<>/,")) < result.length()) {
+        while ((template_mark = result.find_first_of("<>/,-[]* ")) < result.length()) {
             result.replace(template_mark, 1, "_");
         }
 
@@ -96,7 +96,6 @@ namespace
         {
             m_namespace = getIDLAbsoluteNamespace(type.getNamespace(), m_exporter);
             TypeVisitor::apply(type);
-            m_front = normalizeIDLName(m_front);
         }
     };
 
@@ -189,13 +188,13 @@ namespace
             std::string element_name   = type.getIndirection().getName();
             boost::replace_all(element_name, Typelib::NamespaceMarkString, "_");
             boost::replace_all(element_name, " ", "_");
-            m_front = container_kind + "_" + element_name + "_";
+            m_front = normalizeIDLName(container_kind + "_" + element_name + "_");
         }
 
         return true;
     }
     bool IDLTypeIdentifierVisitor::visit_(Compound const& type)
-    { m_front = type.getBasename();
+    { m_front = normalizeIDLName(type.getBasename());
         return true; }
     bool IDLTypeIdentifierVisitor::visit_(Numeric const& type)
     {
@@ -239,7 +238,7 @@ namespace
         return true;
     }
     bool IDLTypeIdentifierVisitor::visit_(Enum const& type)
-    { m_front = type.getBasename();
+    { m_front = normalizeIDLName(type.getBasename());
         return true; }
 
     class IDLExportVisitor : public TypeVisitor
@@ -350,7 +349,7 @@ namespace
 
     bool IDLExportVisitor::visit_ (Enum const& type)
     {
-        m_stream << m_indent << "enum " << stripLeadingUnderscore(type.getBasename()) << " { ";
+        m_stream << m_indent << "enum " << normalizeIDLName(type.getBasename()) << " { ";
 
         list<string> symbols;
         Enum::ValueMap const& values = type.values();
-- 
2.43.0


From 91f0295c718cd9c2aab72891dfe98c2aede5f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 053/122] fix: integers that IDL does not have are exported as
 nothing

---
 lang/idl/export.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 3a35f5b..2be7302 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -213,6 +213,8 @@ namespace
                 case 2: m_front += "short"; break;
                 case 4: m_front += "long"; break;
                 case 8: m_front += "long long"; break;
+                default:
+                    throw UnsupportedType(type, "integers of this size are not supported in IDL");
             }
         }
         else
-- 
2.43.0


From fd616662a53e6f6d80b7e519d82bce58f96865f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 054/122] fix: containers of arrays are exported to IDL as
 invalid sequences

---
 lang/idl/export.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 2be7302..0f9a72f 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -177,6 +177,9 @@ namespace
         }
         else
         {
+            if (type.getIndirection().getCategory() == Type::Array)
+                throw UnsupportedType(type, "containers of arrays are not supported in IDL");
+
             // Get the basename for "kind"
             m_namespace = getIDLBase(type.getIndirection()).first;
             // We generate all containers in orogen::Corba, even if their
@@ -430,7 +433,11 @@ void IDLExport::checkType(Type const& type)
         if (pointed_to == Type::Array || pointed_to == Type::Pointer)
             throw UnsupportedType(type, "multi-dimensional arrays are not supported yet");
     }
-
+    if (type.getCategory() == Type::Container)
+    {
+        if (static_cast<Indirect const&>(type).getIndirection().getCategory() == Type::Array)
+            throw UnsupportedType(type, "containers of arrays are not supported in IDL");
+    }
 }
 
 void IDLExport::adaptNamespace(ostream& stream, string const& ns)
-- 
2.43.0


From 074759538fd65e865960acbc6c9ced0a81eb06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 055/122] fix: typedefs are emitted twice in IDL when an alias
 has the name of a container typedef

---
 lang/idl/export.cc | 41 ++++++++++++++++++++++++++++-------------
 lang/idl/export.hh | 13 ++++++++++---
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 0f9a72f..fab9f39 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -385,7 +385,7 @@ namespace
         std::string typedef_name = getIDLBase(type).second;
         boost::replace_all(typedef_name, "::", "_");
         m_stream << m_indent << "typedef sequence<" << element_name << "> " << typedef_name << ";\n";
-        m_exported_typedefs.insert(make_pair(type.getIndirection().getNamespace() + typedef_name, &type));
+        m_exported_typedefs.insert(make_pair(target_namespace + typedef_name, &type));
 
         return true;
     }
@@ -501,16 +501,33 @@ void IDLExport::save
     return Exporter::save(stream, config, type);
 }
 
+bool IDLExport::isTypedefExported(std::string const& name, Type const& type) const
+{
+    map<string, Type const*>::const_iterator it = m_exported_typedefs.find(name);
+    if (it == m_exported_typedefs.end())
+        return false;
+
+    if (*it->second != type)
+        throw UnsupportedType(type, "the typedef name " + name + " is reserved by the IDL exporter");
+    return true;
+}
+
 void IDLExport::generateTypedefs(ostream& stream)
 {
     for (TypedefMap::const_iterator it = m_typedefs.begin();
             it != m_typedefs.end(); ++it)
     {
-        adaptNamespace(stream, it->first);
+        list<TypedefSpec> const& specs = it->second;
+        for (list<TypedefSpec>::const_iterator spec_it = specs.begin(); spec_it != specs.end(); ++spec_it)
+        {
+            // The typedef of a container might have been exported after the
+            // alias has been seen
+            if (isTypedefExported(spec_it->name, *spec_it->type))
+                continue;
 
-        list<string> const& lines = it->second;
-        for (list<string>::const_iterator str_it = lines.begin(); str_it != lines.end(); ++str_it)
-            stream << m_indent << "typedef " << *str_it << std::endl;
+            adaptNamespace(stream, it->first);
+            stream << m_indent << "typedef " << spec_it->declaration << std::endl;
+        }
     }
 }
 
@@ -549,14 +566,9 @@ bool IDLExport::save
 
             std::string type_namespace = getIDLAbsoluteNamespace(type.getNamespace(), *this);
 
-            map<string, Type const*>::const_iterator already_exported =
-                m_exported_typedefs.find(type.getName());
-            if (already_exported != m_exported_typedefs.end())
-            {
-                if (*already_exported->second != *type)
-                    throw UnsupportedType(*type, "the typedef name " + type.getName() + " is reserved by the IDL exporter");
+            string typedef_name = type_namespace + type.getBasename();
+            if (isTypedefExported(typedef_name, *type))
                 return false;
-            }
             else if (type.getBasename().find_first_of("/<>") != std::string::npos)
             {
                 return false;
@@ -589,7 +601,10 @@ bool IDLExport::save
 
             std::string def = stream.str();
             if (!def.empty())
-                m_typedefs[type_namespace].push_back(def);
+            {
+                TypedefSpec spec = { typedef_name, &(*type), def };
+                m_typedefs[type_namespace].push_back(spec);
+            }
             return true;
         }
         else return false;
diff --git a/lang/idl/export.hh b/lang/idl/export.hh
index a641751..8e05c0c 100644
--- a/lang/idl/export.hh
+++ b/lang/idl/export.hh
@@ -28,17 +28,24 @@ class IDLExport : public Typelib::Exporter
 
     struct TypedefSpec
     {
-        std::string name_space;
+        std::string name;
+        Typelib::Type const* type;
         std::string declaration;
     };
-    typedef std::map<std::string, std::list<std::string> > TypedefMap;
+    typedef std::map<std::string, std::list<TypedefSpec> > TypedefMap;
     TypedefMap m_typedefs;
 
     /** The set of typedefs that have been exported during the generation
-     * process, -- i.e. before the end of generation
+     * process, -- i.e. before the end of generation. The keys are the complete
+     * names, including the namespace prefix and suffix
      */
     std::map<std::string, Typelib::Type const*> m_exported_typedefs;
 
+    /** Returns true if there is already a typedef for this alias
+     *
+     * @throws UnsupportedType if that typedef is for another type
+     */
+    bool isTypedefExported(std::string const& name, Typelib::Type const& type) const;
 
     void closeNamespaces(std::ostream& stream, int levels);
     void adaptNamespace(std::ostream& stream, std::string const& ns);
-- 
2.43.0


From 93b8859d467d1868a0cf2efd47edb29c6fb08e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 056/122] fix: write errors at the end of an exported file are
 not reported

---
 typelib/exporter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typelib/exporter.cc b/typelib/exporter.cc
index 9b4468b..0cd60e1 100644
--- a/typelib/exporter.cc
+++ b/typelib/exporter.cc
@@ -28,6 +28,8 @@ void Exporter::save(std::string const &file_name,
     // and then call the internal "save()" function giving it the prepared
     // 'ofstream' object
     save(file, config, registry);
+    // the destructor would not tell that the end of the file cannot be written
+    file.close();
 }
 
 void Exporter::save(std::ostream& stream, utilmm::config_set const& config, Registry const& registry)
-- 
2.43.0


From f51a13dfb4e3e0a46406b4c468496d2218bdff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 057/122] fix: use after free when a singleton that holds
 another one is released

---
 typelib/utilmm/singleton/server.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typelib/utilmm/singleton/server.cc b/typelib/utilmm/singleton/server.cc
index 5f37eb2..a7607e4 100644
--- a/typelib/utilmm/singleton/server.cc
+++ b/typelib/utilmm/singleton/server.cc
@@ -40,8 +40,11 @@ bool server::detach(std::string const &name) {
     dummy *to_del = i->second;
 
     singletons.erase(i);
+    // deleting the singleton might release the last handle on another one, and
+    // delete this server
+    bool const no_more = singletons.empty();
     delete to_del;
-    return singletons.empty();
+    return no_more;
   }
   return false;
 }
-- 
2.43.0


From 6d4963bee37fe1e427d2d90f521bb83d4a611697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 058/122] fix: a missing directory or a trailing ':' in
 TYPELIB_PLUGIN_PATH makes typelib unusable

---
 typelib/pluginmanager.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/pluginmanager.cc b/typelib/pluginmanager.cc
index 2172e00..763021c 100644
--- a/typelib/pluginmanager.cc
+++ b/typelib/pluginmanager.cc
@@ -93,8 +93,10 @@ bool PluginManager::loadPluginFromDirectory(std::string const& directory)
     path plugin_dir(directory);
     bool success = false;
 
+    // a directory that does not exist or cannot be read is one without plugins
+    boost::system::error_code error;
     directory_iterator end_it;
-    for (directory_iterator it(plugin_dir); it != end_it; ++it)
+    for (directory_iterator it(plugin_dir, error); it != end_it; ++it)
     {
         if (it->path().extension() == ".so" || it->path().extension() == ".dylib")
 #if BOOST_VERSION >= 104600
-- 
2.43.0


From 31e2ca3bd14db7c9b367d62b15ad58896d7f0dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 059/122] fix: the standard types cannot be added to a registry
 that has some of them

---
 lang/csupport/standard_types.cc | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lang/csupport/standard_types.cc b/lang/csupport/standard_types.cc
index 62c4dc6..dd27300 100644
--- a/lang/csupport/standard_types.cc
+++ b/lang/csupport/standard_types.cc
@@ -5,7 +5,31 @@
 #include <iostream>
 using namespace Typelib;
 
-static void addStandardTypes(Typelib::Registry& r)
+namespace
+{
+    /** Adds types and aliases to a registry, except those that are there already */
+    struct MissingTypes
+    {
+        Typelib::Registry& registry;
+        explicit MissingTypes(Typelib::Registry& registry)
+            : registry(registry) {}
+
+        void add(Type* type)
+        {
+            if (registry.has(type->getName(), false))
+                delete type;
+            else
+                registry.add(type);
+        }
+        void alias(std::string const& base, std::string const& name)
+        {
+            if (!registry.has(name, false))
+                registry.alias(base, name);
+        }
+    };
+}
+
+static void addStandardTypes(MissingTypes r)
 {
     BOOST_STATIC_ASSERT((Typelib::NamespaceMark == '/'));
 
@@ -123,8 +147,7 @@ static void addStandardTypes(Typelib::Registry& r)
 
 void Typelib::CXX::addStandardTypes(Typelib::Registry& registry)
 {
-    if (!registry.has("/bool"))
-        ::addStandardTypes(registry);
+    ::addStandardTypes(MissingTypes(registry));
     if (!registry.has("/std/string"))
         registry.add(new String(*registry.get("/int8_t")));
 }
-- 
2.43.0


From 8177fe2ceba54a670b48ceac5f37fd371227f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 060/122] fix: CXXRegistry cannot be created with recent
 versions of Ruby

The class was created before the extension defined the allocator of
Registry, which recent versions of Ruby do not look up afterwards
---
 bindings/ruby/lib/typelib.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index 780349c..d97cc5a 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -201,9 +201,10 @@ require 'typelib/metadata'
 
 require 'typelib/registry'
 require 'typelib/registry_export'
-require 'typelib/cxx_registry'
 require 'typelib/specializations'
 require 'typelib_ruby'
+# Must come after typelib_ruby, which defines how registries are allocated
+require 'typelib/cxx_registry'
 
 Typelib::Type.instance_variable_set :@metadata, Typelib::MetaData.new
 Typelib::IndirectType.instance_variable_set :@metadata, Typelib::MetaData.new
-- 
2.43.0


From 0f0f5e95b9f9e266bc2f0e9997be810365816f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 061/122] fix: unsigned 64-bit values above 2^63 cannot be set
 from Ruby

---
 bindings/ruby/ext/convert.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 44645de..1d0d9ff 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -90,7 +90,7 @@ bool RubySetter::visit_ (uint16_t& value) { value = NUM2UINT(m_value); return fa
 bool RubySetter::visit_ (int32_t & value) { value = NUM2INT(m_value); return false; }
 bool RubySetter::visit_ (uint32_t& value) { value = NUM2UINT(m_value); return false; }
 bool RubySetter::visit_ (int64_t & value) { value = NUM2LL(m_value);  return false; }
-bool RubySetter::visit_ (uint64_t& value) { value = NUM2LL(m_value); return false; }
+bool RubySetter::visit_ (uint64_t& value) { value = NUM2ULL(m_value); return false; }
 bool RubySetter::visit_ (float   & value) { value = NUM2DBL(m_value); return false; }
 bool RubySetter::visit_ (double  & value) { value = NUM2DBL(m_value); return false; }
 
-- 
2.43.0


From f2992e01bab267d1e78b73c476bd91195628649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 062/122] fix: unsigned 32-bit values above 2^31 are read as
 negative in Ruby

---
 bindings/ruby/ext/convert.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 1d0d9ff..2386fa0 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -18,7 +18,7 @@ bool RubyGetter::visit_ (uint8_t & value) { m_value = INT2FIX(value); return fal
 bool RubyGetter::visit_ (int16_t & value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (uint16_t& value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (int32_t & value) { m_value = INT2NUM(value); return false; }
-bool RubyGetter::visit_ (uint32_t& value) { m_value = INT2NUM(value); return false; }
+bool RubyGetter::visit_ (uint32_t& value) { m_value = UINT2NUM(value); return false; }
 bool RubyGetter::visit_ (int64_t & value) { m_value = LL2NUM(value);  return false; }
 bool RubyGetter::visit_ (uint64_t& value) { m_value = ULL2NUM(value); return false; }
 bool RubyGetter::visit_ (float   & value) { m_value = rb_float_new(value); return false; }
-- 
2.43.0


From de17acc611a207d165a7ce7dc7d2195f51add09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 063/122] fix: a negative index is accepted by Ruby arrays once
 elements have been read

---
 bindings/ruby/lib/typelib/array_type.rb | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index aee8b12..e307975 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -152,6 +152,11 @@ module Typelib
         end
 
         def raw_get(index)
+            # do_get checks the index. A negative one would otherwise be
+            # interpreted relatively to the elements that have been read so far
+            if index < 0
+                return do_get(index)
+            end
             @elements[index] ||= do_get(index)
         end
 
-- 
2.43.0


From d411276618b9d8292c4e66bfe8e10f2f99aa1af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 064/122] fix: boolean fields are read as 0 and 1 in Ruby until
 they are accessed raw

---
 bindings/ruby/lib/typelib/compound_type.rb | 4 +++-
 bindings/ruby/lib/typelib/numeric_type.rb  | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 647eca9..4cc9fe6 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -448,7 +448,9 @@ module Typelib
             if @fields[name]
                 Typelib.to_ruby(@fields[name], @field_types[name])
             else
-                value = typelib_get_field(name.to_s, false)
+                # The custom convertions work on the Typelib value
+                field_t = @field_types[name]
+                value = typelib_get_field(name.to_s, field_t && field_t.needs_convertion_to_ruby?)
                 if value.kind_of?(Typelib::Type)
                     @fields[name] = value
                     Typelib.to_ruby(value, @field_types[name])
diff --git a/bindings/ruby/lib/typelib/numeric_type.rb b/bindings/ruby/lib/typelib/numeric_type.rb
index 3b365df..15595a9 100644
--- a/bindings/ruby/lib/typelib/numeric_type.rb
+++ b/bindings/ruby/lib/typelib/numeric_type.rb
@@ -4,7 +4,11 @@ module Typelib
         def self.subclass_initialize
             super
 
-            if integer?
+            if needs_convertion_to_ruby?
+                # There is a custom convertion (e.g. /bool). The value it
+                # returns is never modified in place.
+                self.contains_converted_types = false
+            elsif integer?
                 # This is only a hint for the rest of Typelib. The actual
                 # convertion is done internally by Typelib
                 convert_to_ruby(Numeric, recursive: false, builtin: true)
-- 
2.43.0


From 6e68232ec381dea120703fe96d0d89e15a4d0ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 065/122] fix: converted fields overwrite what has been set
 with [] = or set since

---
 bindings/ruby/lib/typelib/compound_type.rb | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 4cc9fe6..d704b4b 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -97,10 +97,22 @@ module Typelib
                             @fields[field_name].apply_changes_from_converted_types
                         end
                         set_field(field_name, value)
+                        # The caller might still hold, and modify, this object
+                        instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
                     end
                 end
             end
 
+            def raw_set(name, value)
+                result = super
+                # The converted object, if there is one, is obsolete
+                attr_name = "@#{FIELD_NANE_PREFIX}#{name}"
+                if instance_variable_defined?(attr_name)
+                    instance_variable_set(attr_name, nil)
+                end
+                result
+            end
+
             def dup
                 new_value = super()
                 for field_name in self.class.converted_fields
-- 
2.43.0


From 14cf3d3a4a3e0849d211c059c53ab109df6a8a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 066/122] fix: use after free when an element of a nested
 container is replaced in Ruby

---
 bindings/ruby/lib/typelib/container_type.rb | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 4a57431..f26dcc4 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -145,7 +145,19 @@ module Typelib
                     raise ArgumentError, "index out of bounds"
                 end
 
-                do_set(index, value)
+                if value.kind_of?(Typelib::Type)
+                    value.apply_changes_from_converted_types
+                end
+                if element = @elements[index]
+                    # Wrappers of what the element currently holds become
+                    # obsolete
+                    element.invalidate_changes_from_converted_types
+                    element.handle_invalidation do
+                        do_set(index, value)
+                    end
+                else
+                    do_set(index, value)
+                end
             end
 
             def set(index, value)
-- 
2.43.0


From e60eed81869e63e713254c7d8b7cd4fc49372b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 067/122] fix: use after free when a field is accessed by
 symbol and by string in Ruby

---
 bindings/ruby/lib/typelib/compound_type.rb | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index d704b4b..2dfcb7b 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -457,6 +457,8 @@ module Typelib
 
 
         def get(name)
+            # There must be only one wrapper per field
+            name = name.to_s
             if @fields[name]
                 Typelib.to_ruby(@fields[name], @field_types[name])
             else
@@ -472,11 +474,12 @@ module Typelib
         end
 
         def raw_get(name)
+            name = name.to_s
             @fields[name] ||= typelib_get_field(name, true)
         end
 
         def raw_get_cached(name)
-            @fields[name]
+            @fields[name.to_s]
         end
 
         def raw_set_field(name, value)
-- 
2.43.0


From ab45d8137dd10577518722af8e546b7e2c28a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 068/122] fix: changes of converted fields of elements and
 nested fields are lost in Ruby

---
 bindings/ruby/lib/typelib/array_type.rb     | 18 ++++++++++++++++++
 bindings/ruby/lib/typelib/compound_type.rb  |  8 +++++---
 bindings/ruby/lib/typelib/container_type.rb | 18 ++++++++++++++++++
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index e307975..03131c9 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -50,6 +50,24 @@ module Typelib
                 super(conversion_set, generic_array_id)
         end
 
+        def apply_changes_from_converted_types
+            super
+            if element_t.contains_converted_types?
+                @elements.each do |el|
+                    el.apply_changes_from_converted_types if el
+                end
+            end
+        end
+
+        def invalidate_changes_from_converted_types
+            super
+            if element_t.contains_converted_types?
+                @elements.each do |el|
+                    el.invalidate_changes_from_converted_types if el
+                end
+            end
+        end
+
         def freeze_children
             super
             @elements.compact.each do |obj|
diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 2dfcb7b..8ef6951 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -91,11 +91,13 @@ module Typelib
             def apply_changes_from_converted_types
                 super()
                 self.class.converted_fields.each do |field_name|
+                    # Changes might have been done below the field's wrapper,
+                    # whether or not the field itself has been converted
+                    if @fields[field_name]
+                        @fields[field_name].apply_changes_from_converted_types
+                    end
                     value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{field_name}")
                     if !value.nil?
-                        if @fields[field_name]
-                            @fields[field_name].apply_changes_from_converted_types
-                        end
                         set_field(field_name, value)
                         # The caller might still hold, and modify, this object
                         instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index f26dcc4..dd968cf 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -60,6 +60,24 @@ module Typelib
             self
         end
 
+        def apply_changes_from_converted_types
+            super
+            if element_t.contains_converted_types?
+                @elements.each do |el|
+                    el.apply_changes_from_converted_types if el
+                end
+            end
+        end
+
+        def invalidate_changes_from_converted_types
+            super
+            if element_t.contains_converted_types?
+                @elements.each do |el|
+                    el.invalidate_changes_from_converted_types if el
+                end
+            end
+        end
+
         def freeze_children
             super
             for obj in @elements
-- 
2.43.0


From e8b15413a18391ac67c82b3839e56454565354a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 069/122] fix: changes of converted fields are mixed up by
 from_buffer, zero!, erase and reallocations

---
 bindings/ruby/ext/value.cc                  |  2 +-
 bindings/ruby/lib/typelib/container_type.rb | 21 +++++++++++++++++++--
 bindings/ruby/lib/typelib/type.rb           | 11 +++++++++++
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index ec6f331..e1a7d9d 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -709,7 +709,7 @@ void typelib_ruby::Typelib_init_values()
     rb_define_singleton_method(cType, "from_address", RUBY_METHOD_FUNC(&value_from_address), 1);
 
     rb_define_method(cType, "do_from_buffer", RUBY_METHOD_FUNC(&value_do_from_buffer), 5);
-    rb_define_method(cType, "zero!",      RUBY_METHOD_FUNC(&value_zero), 0);
+    rb_define_method(cType, "do_zero",    RUBY_METHOD_FUNC(&value_zero), 0);
     rb_define_method(cType, "memory_eql?",      RUBY_METHOD_FUNC(&value_memory_eql_p), 1);
     rb_define_method(cType, "endian_swap",      RUBY_METHOD_FUNC(&value_endian_swap), 0);
     rb_define_method(cType, "endian_swap!",      RUBY_METHOD_FUNC(&value_endian_swap_b), 0);
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index dd968cf..0f8c667 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -333,6 +333,9 @@ module Typelib
             # NOTE: no need to care about convertions to ruby here, as -- when
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
+            #
+            # The wrappers of the current elements might be invalidated
+            apply_changes_from_converted_types
             allocating_operation do
                 for v in array
                     do_push(__element_from_ruby(v))
@@ -371,12 +374,26 @@ module Typelib
             end
         end
 
+        # @api private
+        #
+        # Helper for the operations that move elements within the container,
+        # i.e. after which the converted values of the element wrappers are
+        # those of another element
+        def with_moving_elements
+            apply_changes_from_converted_types
+            result = handle_invalidation do
+                yield
+            end
+            invalidate_changes_from_converted_types
+            result
+        end
+
         # Erases an element from this container
         def erase(el)
             # NOTE: no need to care about convertions to ruby here, as -- when
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
-            handle_invalidation do
+            with_moving_elements do
                 do_erase(__element_from_ruby(el))
             end
         end
@@ -386,7 +403,7 @@ module Typelib
             # NOTE: no need to care about convertions to ruby here, as -- when
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
-            handle_invalidation do
+            with_moving_elements do
                 do_delete_if do |el|
                     yield(__element_to_ruby(el))
                 end
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 48fe5ac..fe3fa87 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -249,6 +249,7 @@ module Typelib
             if !self.class.casts_to?(target_type)
                 raise ArgumentError, "cannot cast #{self} to #{target_type}"
             end
+            apply_changes_from_converted_types
             do_cast(target_type)
         end
 
@@ -672,6 +673,7 @@ module Typelib
         # provided mainly for libraries that are unmarshalling a lot of typelib
         # samples, to remove the overhead of option validation
         def from_buffer_direct(string, accept_pointers = false, accept_opaques = false, merge_skip_copy = true, remove_trailing_skips = true)
+            invalidate_changes_from_converted_types
             allocating_operation do
                 do_from_buffer(string,
                                accept_pointers,
@@ -682,6 +684,15 @@ module Typelib
             self
         end
 
+        # Initializes the memory to 0
+        def zero!
+            invalidate_changes_from_converted_types
+            handle_invalidation do
+                do_zero
+            end
+            self
+        end
+
         # Returns a string whose content is a marshalled representation of the memory
         # hold by +obj+
         #
-- 
2.43.0


From f8fc46d6a6a100c21754e90162244736b79acf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 070/122] fix: strings with multibyte characters are truncated
 by the Ruby bindings

---
 bindings/ruby/lib/typelib/standard_convertions.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/standard_convertions.rb b/bindings/ruby/lib/typelib/standard_convertions.rb
index fb3e3fb..4b26d59 100644
--- a/bindings/ruby/lib/typelib/standard_convertions.rb
+++ b/bindings/ruby/lib/typelib/standard_convertions.rb
@@ -26,7 +26,7 @@ module Typelib
     end
 
     convert_from_ruby String, '/std/string' do |value, typelib_type|
-        typelib_type.wrap([value.length, value].pack("QA#{value.length}"))
+        typelib_type.wrap([value.bytesize, value].pack("Qa#{value.bytesize}"))
     end
     convert_to_ruby '/std/string', String do |value|
         value = value.to_byte_array[8..-1]
-- 
2.43.0


From 0418c6995464b1c6c38657e4fff3100e11c60497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 071/122] fix: impossible enum and compound definitions from
 Ruby raise an exception instead of aborting

---
 bindings/ruby/ext/registry.cc | 79 ++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 34 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 5c3b167..bc3a4bc 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -592,27 +592,32 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
 {
     Registry& reg = rb2cxx::object<Registry>(registry);
 
-    std::unique_ptr<Typelib::Compound> new_t(new Typelib::Compound(StringValuePtr(name)));
-
-    int field_count = RARRAY_LEN(field_defs);
-    for (int i = 0; i < field_count; ++i)
+    std::string error_string;
     {
-        VALUE field = rb_ary_entry(field_defs, i);
+        std::unique_ptr<Typelib::Compound> new_t(new Typelib::Compound(StringValuePtr(name)));
+        try
+        {
+            int field_count = RARRAY_LEN(field_defs);
+            for (int i = 0; i < field_count; ++i)
+            {
+                VALUE field = rb_ary_entry(field_defs, i);
 
-        VALUE rb_name = rb_ary_entry(field, 0);
-        std::string field_name(StringValuePtr(rb_name));
-        Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
-        int offset(NUM2INT(rb_ary_entry(field, 2)));
-        new_t->addField(field_name, field_type, offset);
-    }
+                VALUE rb_name = rb_ary_entry(field, 0);
+                std::string field_name(StringValuePtr(rb_name));
+                Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
+                int offset(NUM2INT(rb_ary_entry(field, 2)));
+                new_t->addField(field_name, field_type, offset);
+            }
 
-    Typelib::Compound* type = new_t.release();
-    size_t size = NUM2INT(_size);
-    if (size != 0)
-        type->setSize(size);
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+            size_t size = NUM2INT(_size);
+            if (size != 0)
+                new_t->setSize(size);
+            reg.add(new_t.get(), true, "");
+            return cxx2rb::type_wrap(*new_t.release(), registry);
+        }
+        catch(std::exception const& e) { error_string = e.what(); }
+    }
+    rb_raise(rb_eArgError, "%s", error_string.c_str());
 }
 
 /*
@@ -625,25 +630,31 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
 {
     Registry& reg = rb2cxx::object<Registry>(registry);
 
-    std::unique_ptr<Typelib::Enum> new_t(new Typelib::Enum(StringValuePtr(name)));
-
-    int symbol_count = RARRAY_LEN(symbol_defs);
-    for (int i = 0; i < symbol_count; ++i)
+    std::string error_string;
     {
-        VALUE sym = rb_ary_entry(symbol_defs, i);
+        std::unique_ptr<Typelib::Enum> new_t(new Typelib::Enum(StringValuePtr(name)));
+        try
+        {
+            int symbol_count = RARRAY_LEN(symbol_defs);
+            for (int i = 0; i < symbol_count; ++i)
+            {
+                VALUE sym = rb_ary_entry(symbol_defs, i);
 
-        VALUE rb_name = rb_ary_entry(sym, 0);
-        std::string sym_name(StringValuePtr(rb_name));
-        int sym_value(NUM2INT(rb_ary_entry(sym, 1)));
-        new_t->add(sym_name, sym_value);
-    }
+                VALUE rb_name = rb_ary_entry(sym, 0);
+                std::string sym_name(StringValuePtr(rb_name));
+                int sym_value(NUM2INT(rb_ary_entry(sym, 1)));
+                new_t->add(sym_name, sym_value);
+            }
 
-    Typelib::Enum* type = new_t.release();
-    size_t size = NUM2INT(_size);
-    if (size != 0) type->setSize(size);
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+            size_t size = NUM2INT(_size);
+            if (size != 0)
+                new_t->setSize(size);
+            reg.add(new_t.get(), true, "");
+            return cxx2rb::type_wrap(*new_t.release(), registry);
+        }
+        catch(std::exception const& e) { error_string = e.what(); }
+    }
+    rb_raise(rb_eArgError, "%s", error_string.c_str());
 }
 
 /*
-- 
2.43.0


From e96c8dd5caca9d916daa65e92306efed85f762de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 072/122] fix: Registry#create_compound and #remove refuse
 types of another registry

---
 bindings/ruby/ext/registry.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index bc3a4bc..0f8690a 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -7,6 +7,7 @@
 #include <lang/csupport/standard_types.hh>
 #include <typelib/utilmm/configset.hh>
 #include <set>
+#include <stdexcept>
 
 using namespace Typelib;
 using utilmm::config_set;
@@ -87,6 +88,8 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
     RbRegistry& rbregistry = rb2cxx::object<RbRegistry>(self);
     Registry&   registry = *(rbregistry.registry);
     Type const& type(rb2cxx::object<Type>(rbtype));
+    if (!registry.isIncluded(type))
+        rb_raise(rb_eArgError, "the given type object is not part of this registry");
     std::set<Type*> deleted = registry.remove(type);
 
     VALUE result = rb_ary_new();
@@ -605,6 +608,8 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
                 VALUE rb_name = rb_ary_entry(field, 0);
                 std::string field_name(StringValuePtr(rb_name));
                 Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
+                if (!reg.isIncluded(field_type))
+                    throw std::invalid_argument("the type given for the field " + field_name + " comes from a different type registry");
                 int offset(NUM2INT(rb_ary_entry(field, 2)));
                 new_t->addField(field_name, field_type, offset);
             }
-- 
2.43.0


From 2e7879f764a0cc5ab1ef13c68b8c597fe82568f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 073/122] fix: Registry#alias raises an exception when the name
 is taken instead of aborting

---
 bindings/ruby/ext/registry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 0f8690a..8311ae2 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -196,6 +196,8 @@ VALUE registry_alias(VALUE self, VALUE name, VALUE aliased)
         rb_raise(rb_eArgError, "invalid type name %s", StringValuePtr(name));
     } catch(Undefined const&) {
         rb_raise(eNotFound, "there is no type in this registry with the name '%s'", StringValuePtr(aliased));
+    } catch(RegistryException const& e) {
+        rb_raise(rb_eArgError, "%s", e.what());
     }
 }
 
-- 
2.43.0


From 7ecedf56c10e6d9599e7e61aa0cbf7445682c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 074/122] fix: hashes are accepted as export and import options

---
 bindings/ruby/lib/typelib/registry.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index 9fd8630..d0a7c0a 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -136,7 +136,7 @@ module Typelib
                         [ opt[0].to_s, opt[1].map { |child| child.to_s } ]
                     end
                 elsif opt[1].kind_of?(Hash)
-                    [ opt[0].to_s, format_options(opt[1]) ]
+                    [ opt[0].to_s, [format_options(opt[1])] ]
                 else
                     [ opt[0].to_s, opt[1].to_s ]
                 end
-- 
2.43.0


From 7f00adbabe6e7688fdaf33e105b326ef6854ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 075/122] fix: StdVector#raw_memcpy invalidates the wrappers of
 the elements it moves

---
 bindings/ruby/ext/specialized_types.cc      |  7 +++----
 bindings/ruby/lib/typelib/container_type.rb | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 0dec20d..0061ad4 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -611,10 +611,9 @@ static VALUE vector_contained_memory_id(VALUE self)
 
 /*
  * call-seq:
- *  vector.raw_memcpy(source,size) => nil
+ *  vector.do_raw_memcpy(source,size) => nil
  *
- * @param [Integer] source the source raw address
- * @param [Integer] size the number of bytes to be copied
+ * Internal implementation of StdVector#raw_memcpy
  */
 static VALUE vector_raw_memcpy(VALUE self,VALUE _source,VALUE _size)
 {
@@ -761,6 +760,6 @@ void typelib_ruby::Typelib_init_specialized_types()
 
     VALUE mVector = rb_define_module_under(cContainer, "StdVector");
     rb_define_method(mVector, "contained_memory_id", RUBY_METHOD_FUNC(vector_contained_memory_id), 0);
-    rb_define_method(mVector, "raw_memcpy", RUBY_METHOD_FUNC(vector_raw_memcpy), 2);
+    rb_define_method(mVector, "do_raw_memcpy", RUBY_METHOD_FUNC(vector_raw_memcpy), 2);
 }
 
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 0f8c667..99d1ba7 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -202,6 +202,20 @@ module Typelib
             end
         end
 
+        # Methods that are specific to /std/vector
+        module StdVector
+            # Replaces the content of the vector by a raw copy of memory
+            #
+            # @param [Integer] source the source raw address
+            # @param [Integer] size the number of bytes to be copied
+            def raw_memcpy(source, size)
+                invalidate_changes_from_converted_types
+                allocating_operation do
+                    do_raw_memcpy(source, size)
+                end
+            end
+        end
+
         class DeepCopyArray < Array
             def dup
                 result = DeepCopyArray.new
-- 
2.43.0


From 529a122c652385739388d01d1bb20a7473c61077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 076/122] fix: using an invalidated value from Ruby raises
 TypeError instead of crashing

---
 bindings/ruby/ext/memory.cc            |  3 +++
 bindings/ruby/ext/specialized_types.cc |  2 --
 bindings/ruby/ext/typelib.hh           | 12 ++++++++++++
 bindings/ruby/ext/value.cc             | 10 +++++-----
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index 1bed435..bf6d5dd 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -314,6 +314,9 @@ memory_zone_address(VALUE self)
 static VALUE
 memory_zone_to_ptr(VALUE self)
 {
+    if (!memory_cptr(self))
+        rb_raise(rb_eTypeError, "invalidated object");
+
 #   ifdef VERBOSE
     fprintf(stderr, "allocating void* to create a pointer-to-memory\n");
 #   endif
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 0061ad4..1b8bb1a 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -45,8 +45,6 @@ static VALUE compound_field_get(VALUE rbvalue, VALUE name, VALUE raw)
 {
     VALUE registry = value_get_registry(rbvalue);
     Value value = rb2cxx::object<Value>(rbvalue);
-    if (! value.getData())
-        return Qnil;
 
     try {
         Value field_value = value_get_field(value, StringValuePtr(name));
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index c893879..dfbe484 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -114,6 +114,18 @@ namespace typelib_ruby {
             return *object<cxx2rb::RbRegistry>(self).registry;
         }
 
+        /** Values that wrap no memory have been invalidated. Use get_wrapped to
+         * access them
+         */
+        template<> inline Value& object(VALUE self)
+        {
+            check_is_kind_of(self, cxx2rb::class_of<Value>());
+            Value& value = get_wrapped<Value>(self);
+            if (! value.getData())
+                rb_raise(rb_eTypeError, "invalidated object");
+            return value;
+        }
+
         template<>
         inline Type& object(VALUE self)
         {
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index e1a7d9d..24ab588 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -28,7 +28,7 @@ void* value_root_ptr(VALUE value)
     }
     if (RTEST(parent))
     {
-        Value v = rb2cxx::object<Value>(parent);
+        Value v = rb2cxx::get_wrapped<Value>(parent);
         return v.getData();
     }
     else return NULL;
@@ -426,7 +426,7 @@ static
 VALUE value_from_memory_zone(VALUE klass, VALUE ptr)
 {
     VALUE result = value_create_empty(klass);
-    Value& value  = rb2cxx::object<Value>(result);
+    Value& value  = rb2cxx::get_wrapped<Value>(result);
 
     // Protect the memory zone against GC until we don't need it anymore
     rb_iv_set(result, "@ptr", ptr);
@@ -487,7 +487,7 @@ static
 VALUE value_from_address(VALUE klass, VALUE address)
 {
     VALUE result = value_create_empty(klass);
-    Value& value  = rb2cxx::object<Value>(result);
+    Value& value  = rb2cxx::get_wrapped<Value>(result);
     value = Value(reinterpret_cast<void*>(NUM2ULL(address)), value.getType());
     rb_iv_set(result, "@ptr", memory_wrap(value.getData(), false, NULL));
     value_call_typelib_initialize(result);
@@ -501,7 +501,7 @@ VALUE value_from_address(VALUE klass, VALUE address)
 static
 VALUE value_address(VALUE self)
 {
-    Value value = rb2cxx::object<Value>(self);
+    Value value = rb2cxx::get_wrapped<Value>(self);
     return LONG2NUM((long)value.getData());
 }
 
@@ -564,7 +564,7 @@ VALUE value_invalidate(VALUE self)
     if (NIL_P(rb_iv_get(self, "@parent")))
         rb_raise(rb_eArgError, "cannot invalidate a toplevel value");
 
-    Value& value = rb2cxx::object<Value>(self);
+    Value& value = rb2cxx::get_wrapped<Value>(self);
 #ifdef VERBOSE
     fprintf(stderr, "invalidating %llu, ptr=%p\n", NUM2ULL(rb_obj_id(self)), value.getData());
 #endif
-- 
2.43.0


From 2ac5f564ce5d907fcdfd6811867fc83193511db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:59 +0000
Subject: [PATCH 077/122] fix: Ruby metadata objects keep the registry they
 belong to alive

---
 bindings/ruby/ext/metadata.cc          | 7 +++++--
 bindings/ruby/ext/specialized_types.cc | 2 +-
 bindings/ruby/ext/typelib.hh           | 2 +-
 bindings/ruby/ext/value.cc             | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/ext/metadata.cc b/bindings/ruby/ext/metadata.cc
index 1ed511b..036aae4 100644
--- a/bindings/ruby/ext/metadata.cc
+++ b/bindings/ruby/ext/metadata.cc
@@ -10,9 +10,12 @@ using namespace typelib_ruby;
 VALUE typelib_ruby::cMetaData;
 rb_encoding* enc_utf8;
 
-VALUE cxx2rb::metadata_wrap(MetaData& metadata)
+VALUE cxx2rb::metadata_wrap(MetaData& metadata, VALUE registry)
 {
-    return Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    VALUE result = Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    // The metadata object is deleted with the registry
+    rb_iv_set(result, "@__typelib_registry", registry);
+    return result;
 }
 
 static VALUE metadata_include_p(VALUE self, VALUE key)
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 1b8bb1a..f4a0cbb 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -33,7 +33,7 @@ static VALUE compound_get_fields(VALUE self)
         rb_ary_store(field_def, 0, field_name);
         rb_ary_store(field_def, 1, INT2FIX(it->getOffset()));
         rb_ary_store(field_def, 2, field_type);
-        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData()));
+        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData(), registry));
         rb_ary_push(fieldlist, field_def);
     }
 
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index dfbe484..c1f11f9 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -68,7 +68,7 @@ namespace typelib_ruby {
         template<> inline VALUE class_of<MetaData>() { return cMetaData; }
 
         VALUE type_wrap(Type const& type, VALUE registry);
-        VALUE metadata_wrap(MetaData& metadata);
+        VALUE metadata_wrap(MetaData& metadata, VALUE registry);
 
         /* Get the Ruby symbol associated with a C enum, or nil
          * if the value is not valid for this enum
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 24ab588..6a8cc97 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -122,7 +122,7 @@ VALUE cxx2rb::type_wrap(Type const& type, VALUE registry)
     rb_iv_set(klass, "@name", rb_str_new2(type.getName().c_str()));
     rb_iv_set(klass, "@null", (type.getCategory() == Type::NullType) ? Qtrue : Qfalse);
     rb_iv_set(klass, "@opaque", (type.getCategory() == Type::Opaque) ? Qtrue : Qfalse);
-    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData()));
+    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData(), registry));
 
     if (rb_respond_to(klass, rb_intern("subclass_initialize")))
         rb_funcall(klass, rb_intern("subclass_initialize"), 0);
-- 
2.43.0


From bed50bb8607eaac41a96ecb9ee623b8e224c2a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 078/122] fix: wrappers given to the block of
 ContainerType#delete_if follow the elements

---
 bindings/ruby/lib/typelib/container_type.rb | 23 ++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 99d1ba7..c6893a7 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -395,11 +395,13 @@ module Typelib
         # those of another element
         def with_moving_elements
             apply_changes_from_converted_types
-            result = handle_invalidation do
-                yield
+            begin
+                handle_invalidation do
+                    yield
+                end
+            ensure
+                invalidate_changes_from_converted_types
             end
-            invalidate_changes_from_converted_types
-            result
         end
 
         # Erases an element from this container
@@ -418,8 +420,19 @@ module Typelib
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
             with_moving_elements do
+                # The elements that follow one that gets deleted are moved to
+                # its place
+                idx = 0
                 do_delete_if do |el|
-                    yield(__element_to_ruby(el))
+                    el = (@elements[idx] ||= el)
+                    el.invalidate_changes_from_converted_types
+                    if yield(__element_to_ruby(el))
+                        el.invalidate_children
+                        true
+                    else
+                        idx += 1
+                        false
+                    end
                 end
             end
         end
-- 
2.43.0


From 903d9358b0be9c46ca0541ce1c41df1cddd96674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 079/122] fix: ContainerType#concat accepts elements of the
 container itself

---
 bindings/ruby/lib/typelib/container_type.rb | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index c6893a7..a40f722 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -350,9 +350,16 @@ module Typelib
             #
             # The wrappers of the current elements might be invalidated
             apply_changes_from_converted_types
+            elements = []
+            for v in array
+                v = __element_from_ruby(v)
+                # Our own elements might be moved by the first insertions
+                v = v.dup if v.kind_of?(Typelib::Type) && equal?(v.__typelib_parent)
+                elements << v
+            end
             allocating_operation do
-                for v in array
-                    do_push(__element_from_ruby(v))
+                for v in elements
+                    do_push(v)
                 end
             end
             self
-- 
2.43.0


From 520359d5ef58e34d5c7e737ef94490c7b680dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 080/122] fix: memory zones waiting to be swept by Ruby's GC,
 or shared with a part that was invalidated, are not reused

---
 bindings/ruby/ext/memory.cc  | 108 ++++++++++++-----------------------
 bindings/ruby/ext/typelib.hh |   1 -
 2 files changed, 38 insertions(+), 71 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index bf6d5dd..cff6dce 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -43,18 +43,16 @@ static struct st_hash_type memory_table_type = {
 };
 #endif
 
+/** Information about a known memory zone. It does not refer to the MemoryZone
+ * objects themselves: they might already be garbage, waiting to be swept
+ */
 struct MemoryTableEntry
 {
     int refcount;
-    VALUE object;
     bool owned;
     void* root_ptr;
-    MemoryTableEntry(VALUE object, bool owned, void* root_ptr = 0)
-        : refcount(1), object(object), owned(owned), root_ptr(root_ptr)
-    {
-        if (root_ptr && owned)
-            rb_raise(rb_eArgError, "given both a root pointer and owned=true for object %llu", NUM2ULL(rb_obj_id(object)));
-    }
+    MemoryTableEntry(bool owned, void* root_ptr = 0)
+        : refcount(1), owned(owned), root_ptr(root_ptr) {}
 };
 
 struct RbMemoryLayout
@@ -95,25 +93,6 @@ memory_touch_all()
 }
 #endif
 
-bool
-typelib_ruby::memory_ref(void *ptr)
-{
-#   ifdef VERBOSE
-    fprintf(stderr, "%p: ref\n", ptr);
-#   endif
-
-    MemoryTableEntry* entry = 0;
-    if (st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry))
-    {
-        ++(entry->refcount);
-        return true;
-    }
-    else
-    {
-        return false;
-    }
-}
-
 static void
 memory_zone_unref(MemoryZone* ptr)
 {
@@ -181,41 +160,39 @@ typelib_ruby::memory_delete(void *ptr)
     ruby_xfree(ptr);
 }
 
-static VALUE
-memory_aref(void *ptr)
-{
-    MemoryTableEntry* entry;
-    if (!st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry)) {
-        return Qnil;
-    }
-    if ((VALUE)entry == Qundef)
-        rb_bug("found undef in memory table");
-
-    return entry->object;
-}
-
 static void
-memory_aset(void *ptr, VALUE obj, bool owned, void* root_ptr)
+memory_register(void *ptr, bool owned, void* root_ptr)
 {
-    if (! NIL_P(memory_aref(ptr)))
-        rb_raise(rb_eArgError, "there is already a wrapper for %p", ptr);
+    MemoryTableEntry* entry = 0;
+    if (st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry))
+    {
+        ++(entry->refcount);
+        if (owned && !entry->owned)
+        {
+            // What is left of a zone that has been freed without us knowing,
+            // and that just got allocated again
+            void* old_root = entry->root_ptr;
+            entry->owned    = true;
+            entry->root_ptr = 0;
+            if (old_root)
+                memory_unref(old_root);
+        }
+        return;
+    }
 
+    if (root_ptr && owned)
+        rb_raise(rb_eArgError, "given both a root pointer and owned=true for %p", ptr);
     if (ptr == root_ptr)
         rb_raise(rb_eArgError, "pointer and root pointer are equal");
 
-    if (!memory_ref(ptr))
+    if (root_ptr)
     {
-        MemoryTableEntry* entry = new MemoryTableEntry(obj, owned, root_ptr);
-        st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
-
-        if (root_ptr)
-        {
-            MemoryTableEntry* root_entry = 0;
-            if (!st_lookup(MemoryTable, (st_data_t)root_ptr, (st_data_t*)&root_entry))
-                rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
-            ++(root_entry->refcount);
-        }
+        MemoryTableEntry* root_entry = 0;
+        if (!st_lookup(MemoryTable, (st_data_t)root_ptr, (st_data_t*)&root_entry))
+            rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
+        ++(root_entry->refcount);
     }
+    st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)new MemoryTableEntry(owned, root_ptr));
 }
 
 VALUE
@@ -267,24 +244,15 @@ typelib_ruby::memory_init(VALUE ptr, VALUE type)
 VALUE
 typelib_ruby::memory_wrap(void* ptr, bool take_ownership, void* root_ptr)
 {
-    VALUE zone = memory_aref(ptr);
-    if (NIL_P(zone))
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: wrapping new memory zone\n", ptr);
-#       endif
-
-        zone = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(ptr));
-        memory_aset(ptr, zone, take_ownership, root_ptr);
-    }
-    else
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: already known memory zone\n", ptr);
-#       endif
-    }
+#   ifdef VERBOSE
+    fprintf(stderr, "%p: wrapping memory zone\n", ptr);
+#   endif
 
-    return zone;
+    MemoryZone* zone = new MemoryZone(0);
+    VALUE result = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, zone);
+    memory_register(ptr, take_ownership, root_ptr);
+    zone->ptr = ptr;
+    return result;
 }
 
 void*
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index c1f11f9..70eab04 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -201,7 +201,6 @@ namespace typelib_ruby {
 
     extern VALUE value_get_registry(VALUE self);
     extern VALUE type_get_registry(VALUE self);
-    extern bool memory_ref(void* ptr);
     extern void memory_unref(void* ptr);
     extern void memory_delete(void* ptr);
     extern VALUE memory_wrap(void* ptr, bool take_ownership, void* root_ptr);
-- 
2.43.0


From ba52b05115a787bd375b480d9f5fe36aca6c7921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:37 +0000
Subject: [PATCH 081/122] fix: CompoundType#get returns the object assigned to
 a converted field

x.f = v keeps v until it is applied: x['f'], x.get('f') and each_field were
still giving the previous value.
---
 bindings/ruby/lib/typelib/compound_type.rb | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 8ef6951..650e468 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -105,6 +105,16 @@ module Typelib
                 end
             end
 
+            def get(name)
+                # The converted object, if there is one, is what has been
+                # assigned last
+                attr_name = "@#{FIELD_NANE_PREFIX}#{name}"
+                value = instance_variable_get(attr_name) if has_field?(name)
+                if value.nil? then super
+                else value
+                end
+            end
+
             def raw_set(name, value)
                 result = super
                 # The converted object, if there is one, is obsolete
-- 
2.43.0


From 697cfb330d104c8362e88ae2c48dbec064211700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 082/122] fix: CompoundType#dup does not disconnect the
 converted objects of the original

x.dup replaced the converted objects of x itself by copies, so that changes
made to an object obtained from x before were lost.
---
 bindings/ruby/lib/typelib/compound_type.rb | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 650e468..d6aa961 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -124,18 +124,6 @@ module Typelib
                 end
                 result
             end
-
-            def dup
-                new_value = super()
-                for field_name in self.class.converted_fields
-                    converted_value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{field_name}")
-                    if !converted_value.kind_of?(Symbol)
-                        converted_value = converted_value.dup
-                    end
-                    instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", converted_value.dup)
-                end
-                new_value
-            end
         end
 
         # Internal method used to initialize a compound from a hash
-- 
2.43.0


From d3181790c12cfea9664d3cb50d36f0e0be0d7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 083/122] fix: converted arrays follow the elements of their
 field when they are applied

The wrappers of elements of the field that a converted array held were left
invalidated, or at the place of another element, after the array was
assigned: applying the array once more raised TypeError, or shuffled the
elements.
---
 bindings/ruby/lib/typelib/compound_type.rb | 25 ++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index d6aa961..349e5ab 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -101,6 +101,31 @@ module Typelib
                         set_field(field_name, value)
                         # The caller might still hold, and modify, this object
                         instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
+                        if value.kind_of?(Array)
+                            update_converted_elements(value, raw_get(field_name))
+                        end
+                    end
+                end
+            end
+
+            # Helper for apply_changes_from_converted_types
+            #
+            # Elements of the converted array that refer to the elements of
+            # the field itself might have moved when the array was assigned.
+            # Refer to them at their new place.
+            def update_converted_elements(array, field)
+                if !field.kind_of?(ArrayType) && !field.kind_of?(ContainerType)
+                    return
+                elsif array.size != field.size
+                    return
+                end
+
+                element_t = field.class.deference
+                array.each_with_index do |el, i|
+                    if el.kind_of?(Array)
+                        update_converted_elements(el, field.raw_get(i))
+                    elsif el.kind_of?(element_t) && (el.invalidated? || field.equal?(el.__typelib_parent))
+                        array[i] = field.raw_get(i)
                     end
                 end
             end
-- 
2.43.0


From 267725a708b0a65ebca762bfc8e790be70655b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 084/122] fix: memory_eql? does not compare the memory of
 values of different sizes

---
 bindings/ruby/ext/value.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 6a8cc97..286e8eb 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -607,8 +607,9 @@ VALUE value_memory_eql_p(VALUE rbself, VALUE rbwith)
     if (self.getData() == with.getData())
         return Qtrue;
 
-    // Type#== checks for type equality before calling memory_equal?
     Type const& type = self.getType();
+    if (type.getSize() != with.getType().getSize())
+        return Qfalse;
     return memcmp(self.getData(), with.getData(), type.getSize()) == 0 ? Qtrue : Qfalse;
 }
 
-- 
2.43.0


From a4cec5b70c0b6f88fe1e7572983933d50193d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 085/122] fix: zero! and PointerType.create_null can zero
 pointers

---
 bindings/ruby/ext/value.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 286e8eb..f9d644a 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -645,7 +645,10 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
 static VALUE value_zero(VALUE self)
 {
     Value const& value(rb2cxx::object<Value>(self));
-    Typelib::zero(value);
+    // Values can hold pointers, see memory_init
+    try { Typelib::zero(value, Typelib::layout_of(value.getType(), true)); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
-- 
2.43.0


From 509832e04d976a7695f3ad270898c87adf5d4373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 086/122] fix: operations on Ruby values raise when the library
 refuses them, instead of aborting

---
 bindings/ruby/ext/specialized_types.cc | 25 ++++++++++----
 bindings/ruby/ext/value.cc             | 48 +++++++++++++++++---------
 2 files changed, 49 insertions(+), 24 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index f4a0cbb..37021aa 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -486,7 +486,9 @@ static VALUE container_do_push(VALUE self, VALUE obj)
 
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
-    container_t.push(container_v.getData(), element_v);
+    try { container_t.push(container_v.getData(), element_v); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -497,7 +499,10 @@ static VALUE container_do_set(VALUE self, VALUE index, VALUE obj)
 
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
-    container_t.setElement(container_v.getData(), NUM2INT(index), element_v);
+    int element_index = NUM2INT(index);
+    try { container_t.setElement(container_v.getData(), element_index, element_v); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -564,10 +569,14 @@ static VALUE container_erase(VALUE self, VALUE obj)
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
 
-    if (container_t.erase(container_v.getData(), element_v))
-        return Qtrue;
-    else
-        return Qfalse;
+    try {
+        if (container_t.erase(container_v.getData(), element_v))
+            return Qtrue;
+        else
+            return Qfalse;
+    }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
 }
 
 bool container_delete_if_i(Value v, VALUE registry, VALUE container)
@@ -588,7 +597,9 @@ static VALUE container_delete_if(VALUE self)
     Container const& container_t(dynamic_cast<Container const&>(container_v.getType()));
 
     VALUE registry = value_get_registry(self);
-    container_t.delete_if(container_v.getData(), boost::bind(container_delete_if_i, _1, registry, self));
+    try { container_t.delete_if(container_v.getData(), boost::bind(container_delete_if_i, _1, registry, self)); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index f9d644a..ea0a373 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -465,12 +465,13 @@ VALUE value_do_from_buffer(VALUE rbself, VALUE string, VALUE pointers, VALUE opa
 {
     Value value  = rb2cxx::object<Value>(rbself);
 
-    MemoryLayout layout = Typelib::layout_of(value.getType(),
-            RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
-
     char* ruby_buffer = StringValuePtr(string);
-    vector<uint8_t> cxx_buffer(ruby_buffer, ruby_buffer + RSTRING_LEN(string));
-    try { Typelib::load(value, cxx_buffer, layout); }
+    try {
+        MemoryLayout layout = Typelib::layout_of(value.getType(),
+                RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
+        vector<uint8_t> cxx_buffer(ruby_buffer, ruby_buffer + RSTRING_LEN(string));
+        Typelib::load(value, cxx_buffer, layout);
+    }
     catch(std::exception const& e)
     { rb_raise(rb_eArgError, "%s", e.what()); }
     return rbself;
@@ -516,13 +517,18 @@ static
 VALUE value_endian_swap(VALUE self)
 {
     Value& value = rb2cxx::object<Value>(self);
-    CompileEndianSwapVisitor compiled;
-    compiled.apply(value.getType());
-
     VALUE registry = value_get_registry(self);
-    VALUE result   = value_allocate(value.getType(), registry);
-    compiled.swap(value, rb2cxx::object<Value>(result));
-    return result;
+
+    try {
+        CompileEndianSwapVisitor compiled;
+        compiled.apply(value.getType());
+
+        VALUE result   = value_allocate(value.getType(), registry);
+        compiled.swap(value, rb2cxx::object<Value>(result));
+        return result;
+    }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
 }
 
 /* @overload endian_swap!
@@ -536,7 +542,9 @@ static
 VALUE value_endian_swap_b(VALUE self, VALUE rb_compile)
 {
     Value& value = rb2cxx::object<Value>(self);
-    endian_swap(value);
+    try { endian_swap(value); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -577,11 +585,15 @@ static
 VALUE value_do_byte_array(VALUE self, VALUE pointers, VALUE opaques, VALUE merge, VALUE remove_trailing_skips)
 {
     Value& value = rb2cxx::object<Value>(self);
-    MemoryLayout layout = Typelib::layout_of(value.getType(), RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
+    try {
+        MemoryLayout layout = Typelib::layout_of(value.getType(), RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
 
-    vector<uint8_t> buffer;
-    Typelib::dump(value, buffer, layout);
-    return rb_str_new(reinterpret_cast<char*>(&buffer[0]), buffer.size());
+        vector<uint8_t> buffer;
+        Typelib::dump(value, buffer, layout);
+        return rb_str_new(reinterpret_cast<char*>(&buffer[0]), buffer.size());
+    }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
 }
 
 /* call-seq:
@@ -663,7 +675,9 @@ static VALUE typelib_do_copy(VALUE, VALUE to, VALUE from)
         if (!v_from.getType().canCastTo(v_to.getType()))
             rb_raise(rb_eArgError, "cannot copy: types are not compatible");
     }
-    Typelib::copy(v_to.getData(), v_from.getData(), v_from.getType());
+    try { Typelib::copy(v_to.getData(), v_from.getData(), v_from.getType()); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return to;
 }
 
-- 
2.43.0


From 35598f98695a2360dc70f5b9b51e3f9d73fc71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 087/122] fix: type accessors raise on the base type classes,
 instead of aborting

---
 bindings/ruby/ext/specialized_types.cc | 38 ++++++++++++++++----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 37021aa..5802634 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -8,6 +8,18 @@ using namespace Typelib;
 using std::vector;
 using namespace typelib_ruby;
 
+/* Returns the type behind a Ruby class. The base classes (ArrayType,
+ * NumericType, ...) have no type of their own kind
+ */
+template<typename T>
+static T const& type_object(VALUE self)
+{
+    T const* type = dynamic_cast<T const*>(&rb2cxx::object<Type>(self));
+    if (!type)
+        rb_raise(rb_eTypeError, "%s does not represent a type", rb_class2name(self));
+    return *type;
+}
+
 /**********************************************
  * Typelib::Compound
  */
@@ -17,8 +29,7 @@ static VALUE compound_get_fields(VALUE self)
     if (self == cCompound)
         return rb_ary_new();
 
-    Type const& type(rb2cxx::object<Type>(self));
-    Compound const& compound(dynamic_cast<Compound const&>(type));
+    Compound const& compound(type_object<Compound>(self));
     Compound::FieldList const& fields(compound.getFields());
     Compound::FieldList::const_iterator it, end = fields.end();
 
@@ -136,7 +147,7 @@ VALUE enum_keys(VALUE self)
     if (self == cEnum)
         return rb_hash_new();
 
-    Enum const& type = static_cast<Enum const&>(rb2cxx::object<Type>(self));
+    Enum const& type(type_object<Enum>(self));
 
     VALUE keys = rb_iv_get(self, "@values");
     if (!NIL_P(keys))
@@ -159,7 +170,7 @@ VALUE enum_keys(VALUE self)
  */
 static VALUE enum_value_of(VALUE self, VALUE name)
 {
-    Enum const& type = static_cast<Enum const&>(rb2cxx::object<Type>(self));
+    Enum const& type(type_object<Enum>(self));
 
     try {
         int value = type.get(StringValuePtr(name));
@@ -177,7 +188,7 @@ static VALUE enum_value_of(VALUE self, VALUE name)
  */
 static VALUE enum_name_of(VALUE self, VALUE integer)
 {
-    Enum const& type = static_cast<Enum const&>(rb2cxx::object<Type>(self));
+    Enum const& type(type_object<Enum>(self));
 
     try {
         std::string name = type.get(NUM2INT(integer));
@@ -199,8 +210,7 @@ static VALUE enum_name_of(VALUE self, VALUE integer)
 static VALUE indirect_type_deference(VALUE self)
 {
     VALUE registry = type_get_registry(self);
-    Type const& type(rb2cxx::object<Type>(self));
-    Indirect const& indirect(static_cast<Indirect const&>(type));
+    Indirect const& indirect(type_object<Indirect>(self));
     return cxx2rb::type_wrap(indirect.getIndirection(), registry);
 }
 
@@ -327,7 +337,7 @@ static VALUE array_size(VALUE rbarray)
  */
 static VALUE array_class_length(VALUE rbarray)
 {
-    Array const& array(dynamic_cast<Array const&>(rb2cxx::object<Type>(rbarray)));
+    Array const& array(type_object<Array>(rbarray));
     return INT2FIX(array.getDimension());
 }
 
@@ -353,7 +363,7 @@ static VALUE pointer_nil_p(VALUE self)
  */
 static VALUE numeric_type_integer_p(VALUE self)
 {
-    Numeric const& type(dynamic_cast<Numeric const&>(rb2cxx::object<Type>(self)));
+    Numeric const& type(type_object<Numeric>(self));
     return type.getNumericCategory() == Numeric::Float ? Qfalse : Qtrue;
 }
 
@@ -365,7 +375,7 @@ static VALUE numeric_type_integer_p(VALUE self)
  */
 static VALUE numeric_type_size(VALUE self)
 {
-    Numeric const& type(dynamic_cast<Numeric const&>(rb2cxx::object<Type>(self)));
+    Numeric const& type(type_object<Numeric>(self));
     return INT2FIX(type.getSize());
 }
 
@@ -378,7 +388,7 @@ static VALUE numeric_type_size(VALUE self)
  */
 static VALUE numeric_type_unsigned_p(VALUE self)
 {
-    Numeric const& type(dynamic_cast<Numeric const&>(rb2cxx::object<Type>(self)));
+    Numeric const& type(type_object<Numeric>(self));
     switch(type.getNumericCategory())
     {
         case Numeric::SInt: return Qfalse;
@@ -400,7 +410,7 @@ static VALUE numeric_type_unsigned_p(VALUE self)
  */
 static VALUE container_kind(VALUE self)
 {
-    Container const& type(dynamic_cast<Container const&>(rb2cxx::object<Type>(self)));
+    Container const& type(type_object<Container>(self));
     return rb_str_new2(type.kind().c_str());
 }
 
@@ -414,7 +424,7 @@ static VALUE container_kind(VALUE self)
  */
 static VALUE container_natural_size(VALUE self)
 {
-    Container const& type(dynamic_cast<Container const&>(rb2cxx::object<Type>(self)));
+    Container const& type(type_object<Container>(self));
     return INT2FIX(type.getNaturalSize());
 }
 
@@ -426,7 +436,7 @@ static VALUE container_natural_size(VALUE self)
  */
 static VALUE container_random_access_p(VALUE self)
 {
-    Container const& type(dynamic_cast<Container const&>(rb2cxx::object<Type>(self)));
+    Container const& type(type_object<Container>(self));
     return type.isRandomAccess() ? Qtrue : Qfalse;
 }
 
-- 
2.43.0


From 0a1b6884f96cab5f05a6b72af8f13c382eae3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 088/122] fix: CSV lines of values with null pointers

---
 typelib/csvoutput.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index 4929288..ecb5d0a 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -100,6 +100,16 @@ namespace
             display("<" + type.getName() + ">");
             return true;
         }
+        bool visit_ (Value const& value, Pointer const& type)
+        {
+            if (*reinterpret_cast<void**>(value.getData()))
+                return ValueVisitor::visit_(value, type);
+
+            // There is nothing to display, but the columns have to be there
+            HeaderVisitor headers;
+            m_output.insert(m_output.end(), headers.apply(type.getIndirection(), "").size(), "NULL");
+            return true;
+        }
         bool visit_ (int8_t  & value)
         {
             if (m_char_as_numeric)
-- 
2.43.0


From 71cc16c2421ed428df0a2e987006187b0c982053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 089/122] fix: frozen values refuse all changes

---
 bindings/ruby/ext/specialized_types.cc     |  4 ++--
 bindings/ruby/ext/typelib.hh               | 11 +++++++++++
 bindings/ruby/ext/value.cc                 | 11 +++++++----
 bindings/ruby/lib/typelib/compound_type.rb |  3 +++
 bindings/ruby/lib/typelib/type.rb          |  4 ++++
 5 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 5802634..bbaaf69 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -636,7 +636,7 @@ static VALUE vector_contained_memory_id(VALUE self)
  */
 static VALUE vector_raw_memcpy(VALUE self,VALUE _source,VALUE _size)
 {
-    Value container_v = rb2cxx::object<Value>(self);
+    Value container_v = rb2cxx::modifiable_value(self);
     Container const& container_t = static_cast<Container const&>(container_v.getType());
     bool is_memcpy = false;
     bool no_layout = false;
@@ -691,7 +691,7 @@ static VALUE numeric_to_ruby(VALUE mod, VALUE self)
  */
 static VALUE numeric_from_ruby(VALUE self, VALUE arg)
 {
-    Value& value(rb2cxx::object<Value>(self));
+    Value& value(rb2cxx::modifiable_value(self));
     try {
         typelib_from_ruby(value, arg);
         return self;
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index 70eab04..96e6b11 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -134,6 +134,17 @@ namespace typelib_ruby {
             return get_wrapped<Type>(type);
         }
 
+        /** Returns the value wrapped by a Ruby object that is about to be
+         * modified
+         */
+        inline Value& modifiable_value(VALUE self)
+        {
+            Value& value = object<Value>(self);
+            if (RTEST(rb_iv_get(self, "@__typelib_frozen")))
+                rb_raise(rb_eTypeError, "frozen object");
+            return value;
+        }
+
         Enum::integral_type enum_value(VALUE rb_value, Enum const& e);
     }
 
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index ea0a373..1c4f72e 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -60,6 +60,9 @@ VALUE cxx2rb::value_wrap(Value v, VALUE registry, VALUE parent)
 
     rb_iv_set(wrapper, "@parent", parent);
     rb_iv_set(wrapper, "@__typelib_invalidated", Qfalse);
+    // Parts of a frozen value are frozen as well
+    if (RTEST(parent) && RTEST(rb_iv_get(parent, "@__typelib_frozen")))
+        rb_funcall(wrapper, rb_intern("freeze"), 0);
     return wrapper;
 }
 
@@ -463,7 +466,7 @@ VALUE value_new(VALUE klass, VALUE zero)
 static
 VALUE value_do_from_buffer(VALUE rbself, VALUE string, VALUE pointers, VALUE opaques, VALUE merge, VALUE remove_trailing_skips)
 {
-    Value value  = rb2cxx::object<Value>(rbself);
+    Value value  = rb2cxx::modifiable_value(rbself);
 
     char* ruby_buffer = StringValuePtr(string);
     try {
@@ -541,7 +544,7 @@ VALUE value_endian_swap(VALUE self)
 static
 VALUE value_endian_swap_b(VALUE self, VALUE rb_compile)
 {
-    Value& value = rb2cxx::object<Value>(self);
+    Value& value = rb2cxx::modifiable_value(self);
     try { endian_swap(value); }
     catch(std::exception const& e)
     { rb_raise(rb_eArgError, "%s", e.what()); }
@@ -656,7 +659,7 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
 /* Initializes the memory to 0 */
 static VALUE value_zero(VALUE self)
 {
-    Value const& value(rb2cxx::object<Value>(self));
+    Value const& value(rb2cxx::modifiable_value(self));
     // Values can hold pointers, see memory_init
     try { Typelib::zero(value, Typelib::layout_of(value.getType(), true)); }
     catch(std::exception const& e)
@@ -667,7 +670,7 @@ static VALUE value_zero(VALUE self)
 static VALUE typelib_do_copy(VALUE, VALUE to, VALUE from)
 {
     Value v_from = rb2cxx::object<Value>(from);
-    Value v_to   = rb2cxx::object<Value>(to);
+    Value v_to   = rb2cxx::modifiable_value(to);
 
     if (v_from.getType() != v_to.getType())
     {
diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 349e5ab..0511c51 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -217,12 +217,15 @@ module Typelib
                         converted_fields.each do |field_name|
                             attr_name = "@#{FIELD_NANE_PREFIX}#{field_name}"
                             define_method("#{field_name}=") do |value|
+                                raise TypeError, "frozen object" if frozen?
                                 instance_variable_set(attr_name, value)
                             end
                             define_method(field_name) do
                                 v = instance_variable_get(attr_name)
                                 if !v.nil?
                                     v
+                                elsif frozen?
+                                    get(field_name)
                                 else
                                     v = get(field_name)
                                     instance_variable_set(attr_name, v)
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index fe3fa87..7687a4d 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -288,6 +288,10 @@ module Typelib
 
         # Call to freeze the object, i.e. to make it readonly
         def freeze
+            # From now on, changes to the converted objects are not changes to
+            # the value anymore
+            apply_changes_from_converted_types
+            invalidate_changes_from_converted_types
             freeze_children
             @__typelib_frozen = true
             self
-- 
2.43.0


From 209f2ef34b169c7dad19070d1acfeef2b8fe9025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:13 +0000
Subject: [PATCH 090/122] fix: converted fields are taken into account by
 marshalling_size, endian_swap, to_csv and memory_eql?

---
 bindings/ruby/ext/value.cc        | 10 +++----
 bindings/ruby/lib/typelib/type.rb | 50 +++++++++++++++++++++++++++++--
 2 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 1c4f72e..1cdb7b1 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -731,9 +731,9 @@ void typelib_ruby::Typelib_init_values()
 
     rb_define_method(cType, "do_from_buffer", RUBY_METHOD_FUNC(&value_do_from_buffer), 5);
     rb_define_method(cType, "do_zero",    RUBY_METHOD_FUNC(&value_zero), 0);
-    rb_define_method(cType, "memory_eql?",      RUBY_METHOD_FUNC(&value_memory_eql_p), 1);
-    rb_define_method(cType, "endian_swap",      RUBY_METHOD_FUNC(&value_endian_swap), 0);
-    rb_define_method(cType, "endian_swap!",      RUBY_METHOD_FUNC(&value_endian_swap_b), 0);
+    rb_define_method(cType, "do_memory_eql?",      RUBY_METHOD_FUNC(&value_memory_eql_p), 1);
+    rb_define_method(cType, "do_endian_swap",      RUBY_METHOD_FUNC(&value_endian_swap), 0);
+    rb_define_method(cType, "do_endian_swap!",      RUBY_METHOD_FUNC(&value_endian_swap_b), 0);
     rb_define_method(cType, "zone_address", RUBY_METHOD_FUNC(&value_address), 0);
     rb_define_method(cType, "do_cast", RUBY_METHOD_FUNC(&value_do_cast), 1);
     rb_define_method(cType, "do_invalidate", RUBY_METHOD_FUNC(&value_invalidate), 0);
@@ -743,9 +743,9 @@ void typelib_ruby::Typelib_init_values()
     rb_define_singleton_method(mTypelib, "split_typename", RUBY_METHOD_FUNC(typelib_do_split_name), 1);
 
     rb_define_singleton_method(cType, "to_csv", RUBY_METHOD_FUNC(type_to_csv), -1);
-    rb_define_method(cType, "to_csv", RUBY_METHOD_FUNC(value_to_csv), -1);
+    rb_define_method(cType, "do_to_csv", RUBY_METHOD_FUNC(value_to_csv), -1);
     rb_define_method(cType, "do_byte_array", RUBY_METHOD_FUNC(value_do_byte_array), 4);
-    rb_define_method(cType, "marshalling_size", RUBY_METHOD_FUNC(value_marshalling_size), 0);
+    rb_define_method(cType, "do_marshalling_size", RUBY_METHOD_FUNC(value_marshalling_size), 0);
 
     Typelib_init_specialized_types();
 }
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 7687a4d..0973cf2 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -322,13 +322,13 @@ module Typelib
         # operation (from C++) that can possibly change the memory allocated for
         # this object
         def allocating_operation
-            current_size = marshalling_size
+            current_size = do_marshalling_size
             handle_invalidation do
                 yield
             end
         ensure
             if current_size
-                Typelib.add_allocated_memory([marshalling_size - current_size, 0].max)
+                Typelib.add_allocated_memory([do_marshalling_size - current_size, 0].max)
             end
         end
 
@@ -731,6 +731,52 @@ module Typelib
                 options[:remove_trailing_skips])
         end
 
+        # Returns the size of this value once marshalled by Typelib, i.e. the
+        # size of the byte array returned by #to_byte_array
+        #
+        # @return [Integer,nil] the size, or nil if the value cannot be
+        #   marshalled
+        def marshalling_size
+            apply_changes_from_converted_types
+            do_marshalling_size
+        end
+
+        # Compares the memory that holds two values
+        #
+        # @param [Typelib::Type] other
+        def memory_eql?(other)
+            apply_changes_from_converted_types
+            other.apply_changes_from_converted_types if other.kind_of?(Type)
+            do_memory_eql?(other)
+        end
+
+        # Creates a new value with an endianness opposite of the one of self
+        #
+        # @return [Typelib::Type] a new value whose endianness has been swapped
+        # @see endian_swap!
+        def endian_swap
+            apply_changes_from_converted_types
+            do_endian_swap
+        end
+
+        # Swaps the endianness of self
+        #
+        # @return [Typelib::Type] self
+        # @see endian_swap
+        def endian_swap!
+            apply_changes_from_converted_types
+            invalidate_changes_from_converted_types
+            do_endian_swap!
+        end
+
+        # Returns a one-line representation of this value
+        #
+        # @param [String] separator the string used to separate each field
+        def to_csv(separator = " ")
+            apply_changes_from_converted_types
+            do_to_csv(separator)
+        end
+
         # Method called by typelib for internal initialization.
         #
         # Do not override unless you know what you are doing
-- 
2.43.0


From e9acfb73c84e649ae3f463c93b2cb07aad417d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 091/122] fix: empty vectors whose elements have no layout can
 be cleared and destroyed

---
 lang/csupport/containers.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 0131dda..99a6799 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -106,6 +106,11 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
     size_t old_size       = getElementCount(ptr);
     size_t new_raw_size   = new_size * element_size;
 
+    // Nothing to do. In particular, vectors whose elements have no layout are
+    // always empty, and can be destroyed
+    if (old_raw_size == new_raw_size)
+        return;
+
     if (!hasElementLayout())
         throw std::runtime_error("could not compute layout for element type " + element_t.getName() + ", cannot copy");
 
-- 
2.43.0


From 67cce8627cb3b62c2015fcb16d3c98fd9f0043c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 092/122] fix: convert_to_ruby honours its options when no Ruby
 class is given

---
 bindings/ruby/lib/typelib/specializations.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/specializations.rb b/bindings/ruby/lib/typelib/specializations.rb
index 5e9854b..fe32bc7 100644
--- a/bindings/ruby/lib/typelib/specializations.rb
+++ b/bindings/ruby/lib/typelib/specializations.rb
@@ -305,11 +305,11 @@ module Typelib
     #   end
     def self.convert_to_ruby(typename, ruby_class = nil, options = Hash.new, &block)
         if ruby_class.kind_of?(Hash)
-            ruby_class, options = nil, options
+            ruby_class, options = nil, ruby_class
         end
 
         if ruby_class && !ruby_class.kind_of?(Class)
-            raise ArgumentError, "expected a class as second argument, got #{to}"
+            raise ArgumentError, "expected a class as second argument, got #{ruby_class}"
         end
         convertions_to_ruby.add(typename, Convertion.new(typename, ruby_class, lambda(&block)), options)
     end
-- 
2.43.0


From bab6f58286d4c26ec1154751be78a979b50ec2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:39 +0000
Subject: [PATCH 093/122] fix: conversions declared for array and container
 types override the default one

---
 bindings/ruby/lib/typelib/array_type.rb     | 14 ++++++++------
 bindings/ruby/lib/typelib/container_type.rb | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index 03131c9..38d7704 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -146,13 +146,15 @@ module Typelib
                 #
                 # Note that it is overriden by convertions that are explicitely
                 # defined for this type (i.e. that reference this type by name)
-                convert_to_ruby Array do |value|
-                    # Convertion is done by value#each directly
-                    converted = value.map { |v| v }
-                    def converted.dup
-                        map(&:dup)
+                if !needs_convertion_to_ruby?
+                    convert_to_ruby Array do |value|
+                        # Convertion is done by value#each directly
+                        converted = value.map { |v| v }
+                        def converted.dup
+                            map(&:dup)
+                        end
+                        converted
                     end
-                    converted
                 end
             end
 
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index a40f722..e471228 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -257,13 +257,15 @@ module Typelib
                 # Note that it is called before super() so that it gets
                 # overriden by convertions that are explicitely defined for this
                 # type (i.e. that reference this type by name)
-                convert_to_ruby Array do |value|
-                    # Convertion is done by #map
-                    result = DeepCopyArray.new
-                    for v in value
-                        result << v
+                if !needs_convertion_to_ruby?
+                    convert_to_ruby Array do |value|
+                        # Convertion is done by #map
+                        result = DeepCopyArray.new
+                        for v in value
+                            result << v
+                        end
+                        result
                     end
-                    result
                 end
             end
 
-- 
2.43.0


From 00ae64f73e52aaa60eec8c459f9b79b2c34ab8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 094/122] fix: vectors convert the elements of types with a
 custom conversion

---
 bindings/ruby/lib/typelib/container_type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index e471228..bf11e35 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -108,7 +108,7 @@ module Typelib
                 if @elements[index]
                     return __element_to_ruby(@elements[index])
                 else
-                    value = do_get(index, false)
+                    value = do_get(index, element_t.needs_convertion_to_ruby?)
                     if value.kind_of?(Typelib::Type)
                         @elements[index] = value
                         __element_to_ruby(value)
-- 
2.43.0


From 160cf1abf1f0e183c6064c10e46374dabfb5431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 095/122] fix: C++ template names with empty argument lists are
 parsed

---
 bindings/ruby/lib/typelib/cxx.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/cxx.rb b/bindings/ruby/lib/typelib/cxx.rb
index d9924c3..348b4a0 100644
--- a/bindings/ruby/lib/typelib/cxx.rb
+++ b/bindings/ruby/lib/typelib/cxx.rb
@@ -25,14 +25,14 @@ module Typelib
                 when "<"
                     level += 1
                     if level > 1
-                        current << "<" << tokens.shift
+                        current << "<"
                     else
                         current = []
                     end
                 when ">"
                     level -= 1
                     if level == 0
-                        arguments << current
+                        arguments << current if !current.empty? || !arguments.empty?
                         current = []
                         break
                     else
@@ -43,7 +43,7 @@ module Typelib
                         arguments << current
                         current = []
                     else
-                        current << "," << tokens.shift
+                        current << ","
                     end
                 else
                     current << tk
-- 
2.43.0


From 2405febb46ec4cdc7ba26d3b6a217da38d39999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 096/122] fix: Registry#export_to_ruby works on plain modules

---
 bindings/ruby/lib/typelib/registry.rb        |  2 +-
 bindings/ruby/lib/typelib/registry_export.rb | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index d0a7c0a..39f3421 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -108,7 +108,7 @@ module Typelib
         # Export this registry in the Ruby namespace. The base namespace under
         # which it should be done is given in +base_module+
         def export_to_ruby(base_module, options = Hash.new, &block)
-            base_module.extend RegistryExport
+            base_module.extend RegistryExport::Root
             base_module.reset_registry_export(self, block, '/')
         end
 
diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 2e709fb..066a496 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -34,6 +34,18 @@ module Typelib
 
         class NotFound < RuntimeError; end
 
+        # Extension of the modules to which a registry is exported
+        module Root
+            include RegistryExport
+
+            attr_reader :registry
+
+            def reset_registry_export(registry = self.registry, *)
+                @registry = registry
+                super
+            end
+        end
+
         attr_reader :__typelib_registry_export_typename_prefix
         attr_reader :__typelib_registry_export_filter_block
 
-- 
2.43.0


From 96861250c2f43ea0f79e587ec1e52c9794df7a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:50 +0000
Subject: [PATCH 097/122] fix: any attribute value of castxml's output is read
 as it is

Entities other than &lt; and &gt;, and values with an equal sign (paths), were
mangled
---
 bindings/ruby/lib/typelib/gccxml.rb | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index bc721a5..48c20a4 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -103,6 +103,12 @@ module Typelib
             end
         end
 
+        XML_ENTITIES = Hash["&lt;" => "<", "&gt;" => ">", "&quot;" => "\"", "&apos;" => "'", "&amp;" => "&"]
+
+        def unescape(value)
+            value.gsub(/&(?:lt|gt|quot|apos|amp);/, XML_ENTITIES)
+        end
+
         def parse(xml)
             scanner = StringScanner.new(xml)
             scanner.skip_until(/\n/)
@@ -123,11 +129,11 @@ module Typelib
                             tag_start(name, Hash['id' => $1, 'virtual' => '1'])
                         end
                     else
-                        raw_attributes = l.gsub(/&lt;/, "<").gsub(/&gt;/, ">").scan(/\w+="[^"]+"/)
+                        raw_attributes = l.scan(/\w+="[^"]+"/)
                         attributes = Hash.new
                         raw_attributes.each do |attr|
-                            attr_name, attr_value = attr.split("=")
-                            attributes[attr_name] = attr_value[1..-2]
+                            attr_name, attr_value = attr.split("=", 2)
+                            attributes[attr_name] = unescape(attr_value[1..-2])
                         end
                         tag_start(name, attributes)
                     end
-- 
2.43.0


From 279cbbf73985437c891cec92d3ca568e3618519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 098/122] fix: importing headers with enumerations typelib
 cannot represent

Empty enumerations and values that do not fit in an int aborted the import;
enumerations of another size than 32 bits were imported as if they had it
---
 bindings/ruby/lib/typelib/gccxml.rb | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 48c20a4..ad69eaa 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -727,6 +727,10 @@ module Typelib
                 id_to_name[id] = pointed_to_name
 
             elsif kind == "Enumeration"
+                if (msg = enum_not_representable(xmlnode))
+                    return ignore(xmlnode, "ignoring the enumeration #{name}, #{msg}")
+                end
+
                 type = registry.create_enum(normalized_name) do |e|
                     info.enum_values[id].each do |enum_value|
                         e.add(enum_value["name"], Integer(enum_value['init']))
@@ -745,6 +749,23 @@ module Typelib
             normalized_name
         end
 
+        ENUM_VALUE_RANGE = (-2**31..2**31 - 1)
+
+        # Tells why an enumeration cannot be represented by typelib, whose enums
+        # are non-empty sets of values, stored in a (32 bits) integer
+        #
+        # @return [String,nil]
+        def enum_not_representable(xmlnode)
+            values = info.enum_values[xmlnode['id']]
+            if values.empty?
+                "it has no values"
+            elsif xmlnode['size'] && Integer(xmlnode['size']) != 32
+                "it is #{xmlnode['size']} bits wide"
+            elsif !values.all? { |v| ENUM_VALUE_RANGE.include?(Integer(v['init'])) }
+                "some of its values do not fit in a 32 bits signed integer"
+            end
+        end
+
         def find_node_by_name(typename, node_type: nil)
             if node = info.name_to_nodes[typename].first
                 return node if !node_type || (node.name == node_type)
-- 
2.43.0


From 3dbcb66674f83c7ad754a731ed0e30d160ade84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:34 +0000
Subject: [PATCH 099/122] fix: structures with bit-fields are not imported as
 if the fields were whole integers

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index ad69eaa..d2bf1ae 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -661,6 +661,8 @@ module Typelib
                     field_defs = fields.map do |field|
                         if field['access'] != 'public'
                             return ignore(xmlnode, "ignoring #{name} since its field #{field['name']} is private")
+                        elsif field['bits']
+                            return ignore(xmlnode, "ignoring #{name} since its field #{field['name']} is a bit-field")
                         elsif field_type_name = resolve_type_id(field['type'])
                             [field['name'], field_type_name, Integer(field['offset']) / 8, field['line']]
                         else
-- 
2.43.0


From 009a7ae6efbb4bb4aabefb6989943fdd3de96077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:54 +0000
Subject: [PATCH 100/122] fix: pointers to the structure being defined do not
 abort the import

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index d2bf1ae..9d38a0e 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -521,7 +521,9 @@ module Typelib
             end
 
             if kind == "PointerType"
-                if pointed_to_type = resolve_type_id(xmlnode['type'])
+                # The pointed-to type might not be available yet, if the pointer is
+                # part of its definition
+                if (pointed_to_type = resolve_type_id(xmlnode['type'])) && registry.include?(pointed_to_type)
                     pointed_to_name = (id_to_name[id] = "#{pointed_to_type}*")
                     pointer_type = registry.build(pointed_to_name)
                     pointer_type.metadata.set('cxxname', "#{pointer_type.deference.metadata.get('cxxname')}*")
-- 
2.43.0


From 430612a19ea2c5118be66fa45b8cba4deecbb5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:54 +0000
Subject: [PATCH 101/122] fix: the end of a file is not the documentation of
 the definition at its top

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 9d38a0e..f526efc 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -826,7 +826,7 @@ module Typelib
             # Lines are given 1-based (as all editors work that way), and we
             # want the line before the definition. Remove two
             line = line - 2
-            while true
+            while line >= 0
                 case l = lines[line]
                 when /^\s*$/
                 when /^\s*(\*|\/\/|\/\*)/
-- 
2.43.0


From a576c09c099dc90b07c744c4b2a05198577f81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:02 +0000
Subject: [PATCH 102/122] fix: paths of headers may have a colon

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index f526efc..bf6036c 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -910,7 +910,7 @@ module Typelib
             # have a source file/line
             registry.each do |type|
                 if location = type.metadata.get('source_file_line').first
-                    file, line = location.split(':')
+                    file, _, line = location.rpartition(':')
                     line = Integer(line)
                     if doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line)
                         type.metadata.set('doc', doc)
@@ -920,7 +920,7 @@ module Typelib
                 if type.respond_to?(:field_metadata)
                     type.field_metadata.each do |field_name, md|
                         if location = md.get('source_file_line').first
-                            file, line = location.split(':')
+                            file, _, line = location.rpartition(':')
                             line = Integer(line)
                             if doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line)
                                 md.set('doc', doc)
-- 
2.43.0


From a27ff74a729b2b1437c230fcf04e51819a7e97ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:38 +0000
Subject: [PATCH 103/122] fix: const pointers, containers and template
 instances do not abort the import

The name given to qualified types is not a valid type name for them
---
 bindings/ruby/lib/typelib/gccxml.rb | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index bf6036c..d53ec61 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -454,21 +454,6 @@ module Typelib
             opaques.include?(name)
         end
 
-        def resolve_qualified_type(xmlnode)
-            spec = []
-            if xmlnode['const'] == '1'
-                spec << 'const'
-            end
-            if xmlnode['volatile'] == "1"
-                spec << 'volatile'
-            end
-            if name = resolve_type_id(xmlnode['type'])
-                qualified_name = "#{name} #{spec.join(" ")}"
-                id_to_name[xmlnode['id']] = qualified_name
-                return qualified_name, name
-            end
-        end
-
         def source_file_for(xmlnode)
             if file = info.id_to_node[xmlnode['file']]['name']
                 File.realpath(file)
@@ -545,12 +530,11 @@ module Typelib
                 else return ignore(xmlnode)
                 end
             elsif kind == "CvQualifiedType"
-                qualified_name, name = resolve_qualified_type(xmlnode)
-                if qualified_name
-                    registry.alias(qualified_name, name)
-                    return name
-                else return
+                # Typelib has no qualifiers. The type stands for the unqualified one
+                if name = resolve_type_id(xmlnode['type'])
+                    id_to_name[id] = name
                 end
+                return name
             end
 
             if !(name = resolve_node_typelib_name(xmlnode))
-- 
2.43.0


From bdaebac2939392161e96cfeee529632e7c21951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 104/122] fix: containers whose elements cannot be found do not
 abort the import

Such as vectors of pointers, or of the structure that holds them
---
 bindings/ruby/lib/typelib/gccxml.rb | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index d53ec61..51571f9 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -574,13 +574,11 @@ module Typelib
                     if !registry.include?(contained_type)
                         contained_node = find_node_by_name(contained_type)
                         if !contained_node
-                            contained_node = find_node_by_name(contained_type)
-                            raise "Internal error: cannot find definition for #{contained_type}, element of #{name}"
-                        end
-                        if ignored?(contained_node["id"])
-                            return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
-                        elsif !resolve_type_definition(contained_node)
+                            return ignore(xmlnode, "ignoring #{name} as the definition of its element type #{contained_type} cannot be found")
+                        elsif ignored?(contained_node["id"]) || !resolve_type_definition(contained_node)
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
+                        elsif !registry.include?(contained_type)
+                            return ignore(xmlnode, "ignoring #{name} as it is part of the definition of its element type #{contained_type}")
                         end
                     end
 
-- 
2.43.0


From 445b44e444a52f22e2840d73a1527c014c4edf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 105/122] fix: structures derived from opaques and containers
 do not abort the import

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 51571f9..b73cca0 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -603,7 +603,9 @@ module Typelib
                         end
 
                         base_type = registry.get(base_type_name)
-                        if child_node['virtual'] != '0'
+                        if !(base_type <= CompoundType)
+                            return ignore(xmlnode, "ignoring #{name}, its base class #{base_type_name} has no known fields")
+                        elsif child_node['virtual'] != '0'
                             return ignore(xmlnode, "ignoring #{name}, it has virtual base classes")
                         elsif child_node['access'] != 'public'
                             return ignore(xmlnode, "ignoring #{name}, it has private base classes")
-- 
2.43.0


From 3d5e7cc7e393c074553988fa90baf0059f29bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:56 +0000
Subject: [PATCH 106/122] fix: definitions are found by their full name

Types of another namespace with the same basename were used for the elements of
containers, template arguments and opaques
---
 bindings/ruby/lib/typelib/gccxml.rb | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index b73cca0..75f473f 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -754,17 +754,19 @@ module Typelib
             end
         end
 
+        # Finds the node that defines the type of the given (full) typelib name
         def find_node_by_name(typename, node_type: nil)
-            if node = info.name_to_nodes[typename].first
-                return node if !node_type || (node.name == node_type)
+            if typename.start_with?("/")
+                _, basename = GCCXMLLoader.split_last_namespace(typename)
+                info.name_to_nodes["/#{basename}"].find do |node|
+                    next if node_type && (node.name != node_type)
+
+                    # Fundamental types have no context
+                    [typename, typename[1..-1]].include?(resolve_node_typelib_name(node))
+                end
             else
-                basename, context = resolve_namespace_of(typename)
-                return if !context
-                info.name_to_nodes[basename].
-                    find do |node|
-                        (node['context'].to_s == context) &&
-                            (!node_type || (node.name == node_type))
-                    end
+                info.name_to_nodes[typename].
+                    find { |node| !node_type || (node.name == node_type) }
             end
         end
 
-- 
2.43.0


From 0d60d8f11482e0a59977ab765a048e6930702d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:32 +0000
Subject: [PATCH 107/122] fix: headers in other encodings than UTF-8 do not
 abort the import

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 75f473f..b7111af 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -467,7 +467,7 @@ module Typelib
                 source_file_contents[file]
             else
                 if File.file?(file)
-                    source_file_contents[file] = File.readlines(file, :encoding => 'utf-8')
+                    source_file_contents[file] = File.readlines(file, :encoding => 'utf-8').map(&:scrub)
                 else
                     source_file_contents[file] = nil
                 end
-- 
2.43.0


From d32959be589d2e4c02bdece70f9dec9e39ce31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:00 +0000
Subject: [PATCH 108/122] fix: a header gccxml fails on is reported as such

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index b7111af..f884cb3 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -1034,7 +1034,7 @@ module Typelib
             Tempfile.open("typelib_gccxml") do |io|
                 cmdline << "-fxml=#{io.path}"
                 unless system(*cmdline)
-                    raise ArgumentError, "gccxml returned an error while parsing #{file}"
+                    raise ArgumentError, "gccxml returned an error while parsing #{composite_file}"
                 end
                 [io.read]
             end
-- 
2.43.0


From 66b8b5df53a0b30e3fd5b02f46e42d5d4a026885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:41 +0000
Subject: [PATCH 109/122] fix: C++ names of imported pointers and arrays

---
 bindings/ruby/lib/typelib/gccxml.rb | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index f884cb3..9b8b56f 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -498,6 +498,10 @@ module Typelib
             end
         end
 
+        def cxxname_of(type)
+            type.metadata.get('cxxname').first || typelib_to_cxx(type.name)
+        end
+
         def resolve_type_definition(xmlnode)
             kind = xmlnode.name
             id   = xmlnode['id']
@@ -511,7 +515,7 @@ module Typelib
                 if (pointed_to_type = resolve_type_id(xmlnode['type'])) && registry.include?(pointed_to_type)
                     pointed_to_name = (id_to_name[id] = "#{pointed_to_type}*")
                     pointer_type = registry.build(pointed_to_name)
-                    pointer_type.metadata.set('cxxname', "#{pointer_type.deference.metadata.get('cxxname')}*")
+                    pointer_type.metadata.set('cxxname', "#{cxxname_of(pointer_type.deference)}*")
                     return pointed_to_name
                 else return ignore(xmlnode)
                 end
@@ -525,7 +529,7 @@ module Typelib
                     end
                     array_typename = (id_to_name[id] = "#{pointed_to_type}[#{size}]")
                     array_type = registry.create_array(pointed_to_type, size)
-                    array_type.metadata.set('cxxname', "#{array_type.deference.metadata.get('cxxname')}[#{size}]")
+                    array_type.metadata.set('cxxname', "#{cxxname_of(array_type.deference)}[#{size}]")
                     return array_typename
                 else return ignore(xmlnode)
                 end
-- 
2.43.0


From f49d45de18c8cbf2888826bf96aed7efe9e6c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 110/122] fix: Container.of_size for elements that end with
 padding

All elements of a marshalled container have their padding
---
 bindings/ruby/lib/typelib/container_type.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index bf11e35..702f8ed 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -294,7 +294,8 @@ module Typelib
 
         # Create a new container with the given size and element
         def self.of_size(size, element = deference.new)
-            element = Typelib.from_ruby(element, deference).to_byte_array
+            element = Typelib.from_ruby(element, deference).
+                to_byte_array(remove_trailing_skips: false)
             from_buffer([size].pack("Q") + element * size)
         end
 
-- 
2.43.0


From faf3e47e22a3ceb6aeef7325668902ac5a131257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 111/122] fix: Type.compatible_with_memcpy? was false for all
 types

memory_layout returns the layout and the initialization layout
---
 bindings/ruby/lib/typelib/type.rb | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 0973cf2..7426282 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -67,10 +67,11 @@ module Typelib
             end
 
             def compatible_with_memcpy?
-                layout = begin memory_layout
-                         rescue
-                             return false # no layout for this type
-                         end
+                layout, _init_layout =
+                    begin memory_layout
+                    rescue
+                        return false # no layout for this type
+                    end
                 layout.size == 2 &&
                     ((layout[0] == :FLAG_MEMCPY) || layout[0] == :FLAG_SKIP)
             end
-- 
2.43.0


From 4b6a390bd123036033c413758b8ac8762d1bd8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 112/122] fix: values that have pointers can be inspected

---
 bindings/ruby/lib/typelib/type.rb | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 7426282..7a01d40 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -848,6 +848,8 @@ module Typelib
 
         def inspect
             raw_to_s + ": " + to_simple_value.inspect
+        rescue NotImplementedError # there are pointers in there
+            raw_to_s
         end
 
         # Returns a representation of this type only into simple Ruby values,
-- 
2.43.0


From 769cd763556078bcab1ec1cfe9a8baac15f1acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 113/122] fix: loading plugins from TYPELIB_RUBY_PLUGIN_PATH
 with Ruby 3.2

File.exists? does not exist anymore
---
 bindings/ruby/lib/typelib.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index d97cc5a..cfd1b20 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -162,7 +162,7 @@ module Typelib
 
         ENV['TYPELIB_RUBY_PLUGIN_PATH'].split(':').each do |dir|
             specific_file = File.join(dir, "typelib_plugin.rb")
-            if File.exists?(specific_file)
+            if File.exist?(specific_file)
                 if require(specific_file)
                     STDERR.puts "WARN: integrating typelib plugin using the TYPELIB_RUBY_PLUGIN_PATH environment variable is deprecated"
                     STDERR.puts "WARN: just put a file called typelib_plugin.rb into a subfolder from the RUBYLIB (e.g. base/typelib_plugin.rb)"
-- 
2.43.0


From 75aff3bae9f92206c65fcc6075f3de65906ccfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:27 +0000
Subject: [PATCH 114/122] fix: Ruby strings are not copied to char pointers,
 null ones are read as nil

There is no memory to copy the string to: the conversion wrote at an
arbitrary address. Reading a null char* raised, where nil is documented.
---
 bindings/ruby/ext/strings.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index f9b2c79..7cb322a 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -58,7 +58,9 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
     Type  const& type(value.getType());
     Registry const& registry = rb2cxx::object<Registry>(value_get_registry(self));
 
-    if (!RTEST(known_good_type) && !is_string_handler(registry, type, true))
+    // Pointers have no known size, and no memory of their own to copy to
+    if (type.getCategory() == Type::Pointer ||
+            (!RTEST(known_good_type) && !is_string_handler(registry, type, true)))
         rb_raise(rb_eTypeError, "Ruby strings can only be converted to char arrays");
 
     char * buffer;
@@ -91,7 +93,9 @@ static VALUE value_to_string(VALUE mod, VALUE self, VALUE known_good_type)
     string::size_type buffer_size;
     string_buffer_get(value, buffer, buffer_size);
 
-    if (buffer_size == string::npos)
+    if (!buffer)
+        return Qnil;
+    else if (buffer_size == string::npos)
         return rb_str_new2(buffer);
     else
     {
-- 
2.43.0


From 9ad6e7c80278bc86c48992b4c351d50d8c31b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:27 +0000
Subject: [PATCH 115/122] fix: what pointers are converted to is not written
 back

After a char* field had been read, whatever applies the converted
objects (pretty_print, to_byte_array, ...) tried to copy the string to
the pointer.
---
 bindings/ruby/lib/typelib/pointer_type.rb | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bindings/ruby/lib/typelib/pointer_type.rb b/bindings/ruby/lib/typelib/pointer_type.rb
index f25f06f..a8d22d0 100644
--- a/bindings/ruby/lib/typelib/pointer_type.rb
+++ b/bindings/ruby/lib/typelib/pointer_type.rb
@@ -16,6 +16,12 @@ module Typelib
             result
         end
 
+        # What a pointer is converted to (e.g. the String of a char*) is never
+        # written back: there is no memory of the pointer's own to write to
+        def self.contains_converted_types?
+            false
+        end
+
         def self.to_ruby(value)
             if value.null? then nil
             else value
-- 
2.43.0


From ea59aa4d3d6166384198fc1927e992630c41c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 116/122] fix: include paths are given to the clang importer

include_paths was taken from options it had been removed from, and
include and rawflags, which Registry#import documents, were not looked at.
---
 bindings/ruby/lib/typelib/clang.rb | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bindings/ruby/lib/typelib/clang.rb b/bindings/ruby/lib/typelib/clang.rb
index 5a7d732..6003b4f 100644
--- a/bindings/ruby/lib/typelib/clang.rb
+++ b/bindings/ruby/lib/typelib/clang.rb
@@ -10,7 +10,7 @@ module Typelib
         end
 
         # Imports the given C++ file into the registry using CLANG
-        def self.load(registry, file, kind, include_paths: Array.new, **options)
+        def self.load(registry, file, kind, include: Array.new, include_paths: Array.new, rawflags: Array.new, **options)
             #Checking if the clang importer is installed and can be found on the system
             if !system("which typelib-clang-tlb-importer > /dev/null 2>&1")
                 raise RuntimeError, "typelib-clang-tlb-importer is not installed in PATH"
@@ -23,8 +23,7 @@ module Typelib
                 end
             end
 
-            include_dirs = options[:include_paths] || []
-            include_path = include_dirs.map { |d| "-I#{d}" }
+            include_path = (include + include_paths).map { |d| "-I#{d}" }
             defines = options[:define] || []
             #add -D to the defines
             defines = defines.map { |d| "-D#{d}" }
@@ -60,7 +59,8 @@ module Typelib
                         *include_path,
                         "-x",
                         "c++",
-                        *defines]
+                        *defines,
+                        *rawflags]
 
                     if macos?
                         command_line <<  '-resource-dir=/Applications/Xcode.app/Contents/Developer/Toolchains/XcodeDefault.xctoolchain/usr/bin/../lib/clang/6.0'
@@ -100,9 +100,9 @@ module Typelib
         # is needed by orogen to get the resolved top-level include-files. once
         # this is done by the clang-based importer the preprocessing can be
         # removed.
-        def self.preprocess(files, kind, options)
-            includes = options[:include].map { |v| "-I#{v}" }
-            defines  = options[:define].map { |v| "-D#{v}" }
+        def self.preprocess(files, kind, include: Array.new, include_paths: Array.new, define: Array.new, rawflags: Array.new, **)
+            includes = (include + include_paths).map { |v| "-I#{v}" }
+            defines  = define.map { |v| "-D#{v}" }
 
             # create a tempfile where all files used in the typekit are just
             # "dummy-included" to create one big compile unit. this stems from
@@ -124,7 +124,7 @@ module Typelib
                     additional_opts = ['-resource-dir=/Applications/Xcode.app/Contents/Developer/Toolchains/XcodeDefault.xctoolchain/usr/bin/../lib/clang/6.0',  '-stdlib=libc++']
                 end
 
-                result = IO.popen([clang_binary_name, *additional_opts ,"-E", *includes, *defines, io.path]) do |clang_io|
+                result = IO.popen([clang_binary_name, *additional_opts ,"-E", *includes, *defines, *rawflags, io.path]) do |clang_io|
                     clang_io.read
                 end
 
-- 
2.43.0


From 886f53d4fee86ae09fcdf3c3a95274e34e0f1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:39 +0000
Subject: [PATCH 117/122] fix: elements of vectors of enums can be given as
 symbols, names and values

They are read as symbols, and arrays and compounds take them.
---
 bindings/ruby/ext/specialized_types.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index bbaaf69..87ff723 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -480,6 +480,13 @@ static Typelib::Value container_element(uint64_t* buffer10, Type const& element_
         element_v = Value(buffer10, element_t);
         typelib_from_ruby(element_v, obj);
     }
+    else if (element_t.getCategory() == Type::Enum && !rb_obj_is_kind_of(obj, cType))
+    {
+        // As for compound fields and array elements, enums can be given by
+        // symbol, name or value
+        element_v = Value(buffer10, element_t);
+        typelib_from_ruby(element_v, obj);
+    }
     else
     {
         element_v   = rb2cxx::object<Value>(obj);
-- 
2.43.0


From b21ec286b3a50ec87e7cf13849138021d47e792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:43 +0000
Subject: [PATCH 118/122] fix: new values can be initialised with false

---
 bindings/ruby/lib/typelib/type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 7a01d40..7032637 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -617,7 +617,7 @@ module Typelib
             end
 
             def create(init: nil, zero: Typelib.zero_all_values?)
-                if init
+                if !init.nil?
                     new_value = Typelib.from_ruby(init, self)
                 else
                     new_value = value_new(zero)
-- 
2.43.0


From 656517fa8166e52818676c7032dc717c6eec7cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:17 +0000
Subject: [PATCH 119/122] fix: elements that have a wrapper are converted as
 the others

Once an enum element of a vector, or an element of a string, had been
accessed by a raw_ method, it was given as the wrapper by [] and each.
delete_if always did so.
---
 bindings/ruby/lib/typelib/container_type.rb | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 702f8ed..f7f6934 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -273,7 +273,9 @@ module Typelib
             # type by name can override the default convertion above
             super if defined? super
 
-            if deference.needs_convertion_to_ruby?
+            # Numbers and enums are converted by the extension, except for the
+            # elements that have a wrapper already
+            if deference.needs_convertion_to_ruby? || deference <= NumericType || deference <= EnumType
                 include ConvertToRuby
             end
             if deference.needs_convertion_from_ruby?
-- 
2.43.0


From 0747450385cba127a90fcccb5cb719d04b4605dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 120/122] fix: wrappers of the characters of a std::string are
 invalidated when it changes

They kept pointing to the former memory of the string, which is released
when it grows.
---
 bindings/ruby/ext/specialized_types.cc         | 18 ++++++++++++++++++
 .../ruby/lib/typelib/standard_convertions.rb   |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 87ff723..aaa90e8 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -635,6 +635,21 @@ static VALUE vector_contained_memory_id(VALUE self)
     return ULL2NUM(reinterpret_cast<uint64_t>(&(*vector)[0]));
 }
 
+/*
+ * call-seq:
+ *  string.contained_memory_id => value or nil
+ *
+ * (see ContainerType#contained_memory_id)
+ */
+static VALUE string_contained_memory_id(VALUE self)
+{
+    Value container_v = rb2cxx::object<Value>(self);
+    std::string const* string = reinterpret_cast<std::string const*>(container_v.getData());
+    if (string->empty())
+        return Qnil;
+    return ULL2NUM(reinterpret_cast<uint64_t>(string->data()));
+}
+
 /*
  * call-seq:
  *  vector.do_raw_memcpy(source,size) => nil
@@ -784,6 +799,9 @@ void typelib_ruby::Typelib_init_specialized_types()
     rb_define_method(cContainer, "do_erase",     RUBY_METHOD_FUNC(container_erase), 1);
     rb_define_method(cContainer, "do_delete_if", RUBY_METHOD_FUNC(container_delete_if), 0);
 
+    VALUE mString = rb_define_module_under(cContainer, "StdString");
+    rb_define_method(mString, "contained_memory_id", RUBY_METHOD_FUNC(string_contained_memory_id), 0);
+
     VALUE mVector = rb_define_module_under(cContainer, "StdVector");
     rb_define_method(mVector, "contained_memory_id", RUBY_METHOD_FUNC(vector_contained_memory_id), 0);
     rb_define_method(mVector, "do_raw_memcpy", RUBY_METHOD_FUNC(vector_raw_memcpy), 2);
diff --git a/bindings/ruby/lib/typelib/standard_convertions.rb b/bindings/ruby/lib/typelib/standard_convertions.rb
index 4b26d59..4c95f12 100644
--- a/bindings/ruby/lib/typelib/standard_convertions.rb
+++ b/bindings/ruby/lib/typelib/standard_convertions.rb
@@ -36,6 +36,8 @@ module Typelib
         value
     end
     specialize '/std/string' do
+        include Typelib::ContainerType::StdString
+
         def to_str
             Typelib.to_ruby(self)
         end
-- 
2.43.0


From f64617127d9f7c3a35b60c88a75acb06b7e16156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:17 +0000
Subject: [PATCH 121/122] fix: elements that delete_if moved are not read
 through stale wrappers

Elements that follow one that got deleted are moved to its place while
delete_if iterates, but the wrappers kept for the content of the element
that was there were used for them: with vectors of vectors, they read
memory that had been freed.
---
 bindings/ruby/lib/typelib/container_type.rb | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index f7f6934..faab11c 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -435,12 +435,14 @@ module Typelib
                 # The elements that follow one that gets deleted are moved to
                 # its place
                 idx = 0
+                moved = false
                 do_delete_if do |el|
                     el = (@elements[idx] ||= el)
+                    el.invalidate_children if moved
                     el.invalidate_changes_from_converted_types
                     if yield(__element_to_ruby(el))
                         el.invalidate_children
-                        true
+                        moved = true
                     else
                         idx += 1
                         false
-- 
2.43.0


From c7884002c2740452b950aade61de894cffae667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:09 +0000
Subject: [PATCH 122/122] fix: arrays of a recursive compound get the size of
 an incomplete one when merged

When a compound has a pointer to another one that holds it in an array, the
array was created before the compound had its size: merging (and minimal())
either failed on a definition mismatch or made an array that is too small.
---
 typelib/typemodel.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 0678318..6acf76f 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -413,6 +413,8 @@ namespace Typelib
     Type* Compound::do_merge(Registry& registry, RecursionStack& stack) const
     {
         unique_ptr<Compound> result(new Compound(getName()));
+        // Arrays of this type might be created while the fields get merged
+        result->setSize(getSize());
         RecursionStack::iterator onStackIter = stack.insert(make_pair(this, result.get())).first;
 
         try  {
-- 
2.43.0

