From 97c626883bf58a7325b613aabd53db88b5c4cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 01/25] fix: ReferenceWrapper::pointer() returns the pointer
 instead of the object

---
 ecl_utilities/include/ecl/utilities/references.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_utilities/include/ecl/utilities/references.hpp b/ecl_utilities/include/ecl/utilities/references.hpp
index 0bc6d13..417e3ed 100644
--- a/ecl_utilities/include/ecl/utilities/references.hpp
+++ b/ecl_utilities/include/ecl/utilities/references.hpp
@@ -124,7 +124,7 @@ public:
      *
      * @return T& : the returned pointer to the wrapped object.
      */
-    T* pointer() const { return *obj_ptr; }
+    T* pointer() const { return obj_ptr; }
 
 private:
     T* obj_ptr;
-- 
2.43.0


From f2038ea262a3fc9cccb438c3e39058abfaa4cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 02/25] fix: command line values and flags may contain '*'

The placeholder for used up combined switches was '*', so that any value with
a '*' behind its first character was refused, and a switch with that flag was
found again and again.
---
 ecl_command_line/include/ecl/command_line/arg.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/arg.hpp b/ecl_command_line/include/ecl/command_line/arg.hpp
index b401093..1204a18 100644
--- a/ecl_command_line/include/ecl/command_line/arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg.hpp
@@ -176,10 +176,10 @@ class Arg
 
 		/**
 		 * The char used as a place holder when SwitchArgs are combined.
-		 * Currently set to '*', which shouldn't cause many problems since
-		 * *'s are expanded by most shells on the command line.
+		 * Currently set to the bell character, which, unlike
+		 * '*', does not turn up in values or among the flags.
 		 */
-		static char blankChar() { return '*'; }
+		static char blankChar() { return static_cast<char>(7); }
 
 		/**
 		 * The char that indicates the beginning of a flag.  Currently '-'.
-- 
2.43.0


From e1ec10de04b9cbb335e227723564645dee3d6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 03/25] fix: an empty text is not a value for a non-text
 argument

ValueArg took it for the default value, MultiArg pushed an uninitialised one.
---
 ecl_command_line/include/ecl/command_line/multi_arg.hpp | 2 +-
 ecl_command_line/include/ecl/command_line/value_arg.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
index 82492af..bb346b3 100644
--- a/ecl_command_line/include/ecl/command_line/multi_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
@@ -98,7 +98,7 @@ class ValueExtractor
 				valuesRead++;
 			}
 
-			if ( is.fail() )
+			if ( is.fail() || valuesRead == 0 )
 				return EXTRACT_FAILURE;
 
 			if ( valuesRead > 1 )
diff --git a/ecl_command_line/include/ecl/command_line/value_arg.hpp b/ecl_command_line/include/ecl/command_line/value_arg.hpp
index 0aedd35..81f7f49 100644
--- a/ecl_command_line/include/ecl/command_line/value_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/value_arg.hpp
@@ -95,7 +95,7 @@ template<class T> class ValueExtractor
                 valuesRead++;
             }
 
-            if ( is.fail() )
+            if ( is.fail() || valuesRead == 0 )
                 return EXTRACT_FAILURE;
 
             if ( valuesRead > 1 )
-- 
2.43.0


From 42a580b8e3de4ac2e038a945bce15e18782f9ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 04/25] fix: multi arguments refuse to be set next to an
 exclusive alternative

MultiArg and MultiSwitchArg ignored that another member of their exclusive
group was set already; the group was then counted twice, which hid missing
required arguments.
---
 ecl_command_line/include/ecl/command_line/multi_arg.hpp     | 4 ++++
 .../include/ecl/command_line/multi_switch_arg.hpp           | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/multi_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
index bb346b3..46a8d58 100644
--- a/ecl_command_line/include/ecl/command_line/multi_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
@@ -407,6 +407,10 @@ bool MultiArg<T>::processArg(int *i, std::vector<std::string>& args)
 
    	if ( argMatches( flag ) )
    	{
+		if ( _xorSet )
+			throw( CmdLineParseException("Mutually exclusive argument already set!",
+			                             toString()) );
+
    		if ( Arg::delimiter() != ' ' && value == "" )
 			throw( ArgParseException(
 			           "Couldn't find delimiter for this argument!",
diff --git a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
index 327a291..212434e 100644
--- a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
@@ -139,6 +139,9 @@ inline bool MultiSwitchArg::processArg(int *i, std::vector<std::string>& args)
 
 	if ( argMatches( args[*i] ))
 	{
+		if ( _xorSet )
+			throw(CmdLineParseException("Mutually exclusive argument already set!", toString()));
+
 		// so the isSet() method will work
 		_alreadySet = true;
 
@@ -151,6 +154,9 @@ inline bool MultiSwitchArg::processArg(int *i, std::vector<std::string>& args)
 	}
 	else if ( combinedSwitchesMatch( args[*i] ) )
 	{
+		if ( _xorSet )
+			throw(CmdLineParseException("Mutually exclusive argument already set!", toString()));
+
 		// so the isSet() method will work
 		_alreadySet = true;
 
-- 
2.43.0


From c93a45a87c30057258f2c8a8712a6610d2479119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 05/25] fix: a multi switch of an exclusive group may be
 repeated

Each repetition counted the whole group again (Too many arguments!).
---
 .../ecl/command_line/multi_switch_arg.hpp     | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
index 212434e..c10fd6e 100644
--- a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
@@ -35,6 +35,10 @@ class MultiSwitchArg : public SwitchArg
 		 */
 		int _value;
 
+		/**
+		 * Whether the switch has been counted for its exclusive group.
+		 */
+		bool _allowMore;
 
 	public:
 
@@ -104,6 +108,11 @@ class MultiSwitchArg : public SwitchArg
 		 * Returns the longID for this Arg.
 		 */
 		std::string longID(const std::string& val) const;
+
+		/**
+		 * Counts an exclusive group just once when the switch is repeated.
+		 */
+		virtual bool allowMore();
 };
 
 //////////////////////////////////////////////////////////////////////
@@ -115,7 +124,8 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					int init,
 					Visitor* v )
 : SwitchArg(flag, name, desc, false, v),
-_value( init )
+_value( init ),
+_allowMore( false )
 { }
 
 inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
@@ -125,7 +135,8 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					int init,
 					Visitor* v )
 : SwitchArg(flag, name, desc, false, v),
-_value( init )
+_value( init ),
+_allowMore( false )
 {
 	parser.add( this );
 }
@@ -189,6 +200,13 @@ inline std::string MultiSwitchArg::longID(const std::string& val) const
 	return id;
 }
 
+inline bool MultiSwitchArg::allowMore()
+{
+	bool am = _allowMore;
+	_allowMore = true;
+	return am;
+}
+
 //////////////////////////////////////////////////////////////////////
 //END MultiSwitchArg.cpp
 //////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 902e0e03a11a96c894ac85d86a2e073fbf3f1c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:19 +0000
Subject: [PATCH 06/25] fix: bound member function objects keep the result type
 of their function

They stored the function as one returning void, so that none but void member
functions could be bound.
---
 ecl_utilities/include/ecl/utilities/function_objects.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_utilities/include/ecl/utilities/function_objects.hpp b/ecl_utilities/include/ecl/utilities/function_objects.hpp
index 28b0ed3..17ea352 100644
--- a/ecl_utilities/include/ecl/utilities/function_objects.hpp
+++ b/ecl_utilities/include/ecl/utilities/function_objects.hpp
@@ -710,7 +710,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
 };
 /**
  * @brief Nullary function object for bound unary member functions.
@@ -770,7 +770,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
     A argument;
 };
 
@@ -833,7 +833,7 @@ public:
         }
 private:
         C &member_class;
-        void (C::*member_function)(A, B);
+        R (C::*member_function)(A, B);
 };
 /*****************************************************************************
 ** Function Object Wrappers
-- 
2.43.0


From dab58c261f3d6d3352d1cdee2e4868673879ebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:42 +0000
Subject: [PATCH 07/25] fix: assigning a dynamic array to itself keeps its
 contents

---
 .../include/ecl/containers/array/array_dynamic_mem_check.hpp     | 1 +
 .../include/ecl/containers/array/array_dynamic_no_mem_check.hpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 6c36486..6d5d4c2 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -255,6 +255,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) { return; }
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index 539443d..b7dd704 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -242,6 +242,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) { return; }
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
-- 
2.43.0


From 818a850ca6d84b0aee72d1f8a54f0706242879f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:42 +0000
Subject: [PATCH 08/25] fix: stencils check element indices against their own
 window

at(0) of a window at the start of the array threw, indices behind the window
were accepted, and the comma initialiser did not compile.
---
 .../containers/stencil/specialisations.hpp    | 24 +++++++++----------
 .../ecl/containers/stencil/stencil.hpp        | 14 +++++------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 8bcbdbd..d5e083b 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -329,8 +329,8 @@ public:
    **/
   reference operator[](size_type i)
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -346,8 +346,8 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -362,7 +362,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -386,7 +386,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -722,8 +722,8 @@ public:
    **/
   reference operator[](size_type i)
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -739,8 +739,8 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -755,7 +755,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -779,7 +779,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index c3f8d30..3b5a6d2 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -205,7 +205,7 @@ public:
    */
   containers::BoundedListInitialiser<value_type,value_type*> operator<< (const value_type &value)
   {
-    return containers::BoundedListInitialiser<value_type,iterator>(value, begin, size());
+    return containers::BoundedListInitialiser<value_type,iterator>(value, begin(), size());
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
@@ -397,8 +397,8 @@ public:
    **/
   reference operator[](size_type i)
   {
-    ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -414,8 +414,8 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
-    ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -430,7 +430,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array.begin() )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -454,7 +454,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array.begin() )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-- 
2.43.0


From caa73d836c1f8f80f777311708e43f318db84602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:42 +0000
Subject: [PATCH 09/25] fix: resizing a fifo or a push and pop queue resets its
 cursors

The elements do not survive a resize, and the old cursors could lie outside of
the new buffer.
---
 ecl_containers/include/ecl/containers/fifo.hpp                 | 3 ++-
 .../ecl/containers/push_and_pop/push_and_pop_dynamic.hpp       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecl_containers/include/ecl/containers/fifo.hpp b/ecl_containers/include/ecl/containers/fifo.hpp
index 2dddcc8..ae608a9 100644
--- a/ecl_containers/include/ecl/containers/fifo.hpp
+++ b/ecl_containers/include/ecl/containers/fifo.hpp
@@ -165,9 +165,10 @@ public:
 	 * @exception StandardException : throws if a zero sized storage is specified.
 	 */
 	void resize( unsigned int length ) {
+		ecl_assert_throw( (length>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
 		size_fifo = length;
-		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
 		data.resize( size_fifo );
+		running_index = 0; // the old elements are gone, an old index may lie outside the new buffer
 	}
 
 private:
diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index 22883b8..51f7584 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -251,6 +251,7 @@ public:
     size_fifo = length+1;
     ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
     data.resize( size_fifo );
+    clear(); // the old elements are gone
   }
 
   /**
-- 
2.43.0


From 9fdb47653c5092b1adbe0e56b58d60c5d7f31034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:29 +0000
Subject: [PATCH 10/25] fix: the string device keeps track of the size of its
 buffer

Growing did not record the new size and clearing recorded too small a one, so
that single characters were written behind the end of the buffer.
---
 ecl_devices/include/ecl/devices/string.hpp | 2 +-
 ecl_devices/src/lib/string.cpp             | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/string.hpp b/ecl_devices/include/ecl/devices/string.hpp
index dcfb2fc..035c97a 100644
--- a/ecl_devices/include/ecl/devices/string.hpp
+++ b/ecl_devices/include/ecl/devices/string.hpp
@@ -207,7 +207,7 @@ private:
 	 *
 	 * @param no_bytes : the number of bytes to grow by.
 	 */
-	void grow(int no_bytes = 256);
+	void grow(unsigned long no_bytes = 256);
 
 };
 
diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 7ae0e19..ca7d780 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -45,11 +45,12 @@ std::string String::str() {
     return s;
 }
 
-void String::grow(int no_bytes) {
+void String::grow(unsigned long no_bytes) {
     char* new_buffer;
     unsigned long cur_pos = buffer_cur_read - buffer;
     unsigned long cur_end = buffer_cur_write - buffer;
-    new_buffer = new char[size()+no_bytes+1];
+    buffer_length = size()+no_bytes+1;
+    new_buffer = new char[buffer_length];
     memcpy(new_buffer,buffer,size());
     delete [] buffer;
     buffer = new_buffer;
@@ -109,7 +110,7 @@ void String::clear()
 {
     delete [] buffer;
     buffer = new char[1];
-    buffer_length = 0;
+    buffer_length = 1;
     buffer_cur_write = buffer;
     buffer_cur_read = buffer;
 }
-- 
2.43.0


From 28054cfdb4969eda9a2c56d6887f3088bfc46690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:55 +0000
Subject: [PATCH 11/25] fix: byte array converters shift in the unsigned type,
 reject over-long arrays and truncated hex text

---
 ecl_converters/include/ecl/converters/from_byte_array.hpp | 6 ++++--
 ecl_converters/include/ecl/converters/to_byte_array.hpp   | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index 54cefbf..9d0d178 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -85,14 +85,16 @@ public:
       ecl_debug_throw(
           StandardException(LOC,ConversionError,"The byte array is too long for the integral type specified."));
       error_handler = ConversionError;
+      return 0;
     }
     /*********************
      ** Method
      **********************/
-    typename ecl::Unsigned<Integral>::type unsigned_value = 0;
+    typedef typename ecl::Unsigned<Integral>::type UnsignedIntegral;
+    UnsignedIntegral unsigned_value = 0;
     for (unsigned int i = 0; i < byte_array.size(); ++i)
     {
-      unsigned_value |= static_cast<unsigned char>(byte_array[i]) << 8 * i;
+      unsigned_value |= static_cast<UnsignedIntegral>(static_cast<UnsignedIntegral>(static_cast<unsigned char>(byte_array[i])) << 8 * i);
     }
     if (ecl::is_signed<Integral>::value)
     {
diff --git a/ecl_converters/include/ecl/converters/to_byte_array.hpp b/ecl_converters/include/ecl/converters/to_byte_array.hpp
index 3cc8c40..e9678ea 100644
--- a/ecl_converters/include/ecl/converters/to_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/to_byte_array.hpp
@@ -385,6 +385,12 @@ public:
       }
       ++input;
     }
+    if (state != waiting_zero) // text stopped in the middle of a byte
+    {
+      ecl_debug_throw(StandardException(LOC,ConversionError));
+      error_handler = ConversionError;
+      bytes.clear();
+    }
     return bytes;
   }
   ;
-- 
2.43.0


From 7ea88ad7f715866e97a4e352bfa5e020517f56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:05 +0000
Subject: [PATCH 12/25] fix: negative and most negative integers convert to
 their decimal text

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 4 ++--
 ecl_converters/include/ecl/converters/string.hpp       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 7445cf3..1c9dcf6 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -146,7 +146,7 @@ char* convertSignedIntegral(const Number &number, char* buffer_begin, char* buff
     if ( number >= 0 ) {
         s = convertUnsignedIntegral(static_cast<UnsignedNumber>(number),buffer_begin,buffer_end);
     } else {
-        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(-1*number),buffer_begin+1,buffer_end);
+        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(static_cast<UnsignedNumber>(0) - static_cast<UnsignedNumber>(number)),buffer_begin+1,buffer_end);
         if (s == NULL) {
           return NULL;
         }
@@ -211,7 +211,7 @@ class Converter<char*,char> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const char &input) {
-            return converters::convertUnsignedIntegral(input,this->buffer_begin,this->buffer_end);
+            return converters::convertSignedIntegral(input,this->buffer_begin,this->buffer_end);
         }
 };
 /*****************************************************************************
diff --git a/ecl_converters/include/ecl/converters/string.hpp b/ecl_converters/include/ecl/converters/string.hpp
index eb9d79b..6fa3f69 100644
--- a/ecl_converters/include/ecl/converters/string.hpp
+++ b/ecl_converters/include/ecl/converters/string.hpp
@@ -73,14 +73,14 @@ public:
 			char_string = buffer + 30;
 		#endif
 		*char_string = '\0';
-		int remaining = input;
+		unsigned int remaining = input;
 		unsigned int lsd;
 		/*********************
 		** Fix sign
 		**********************/
-		if (remaining < 0 ) {
+		if (input < 0 ) {
 			negative = true;
-			remaining *= -1;
+			remaining = 0u - remaining; // negated as unsigned, the most negative integer has no positive counterpart
 		}
 		do
 		{
-- 
2.43.0


From 12e275c274272c5e5cb16f12c6b9d99a3edae88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:50 +0000
Subject: [PATCH 13/25] fix: a one-off width and base does not inherit the
 alignment of an earlier one-off

---
 ecl_formatters/include/ecl/formatters/number.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index d486a06..5cb34ed 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -330,6 +330,7 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::In
     width_ = &tmp_width;
     alignment_ = &tmp_alignment;
     base_ = &tmp_base;
+    tmp_alignment = prm_alignment; // not specified for this value
     base(b);
     width(w);
     value_ = n;
-- 
2.43.0


From 2e00ac8e2b656e432ef9161283e6064ae3eb6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:49 +0000
Subject: [PATCH 14/25] fix: time stamp differences are normalised

---
 ecl_time/src/lib/timestamp_base.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecl_time/src/lib/timestamp_base.cpp b/ecl_time/src/lib/timestamp_base.cpp
index cec3c31..3731765 100644
--- a/ecl_time/src/lib/timestamp_base.cpp
+++ b/ecl_time/src/lib/timestamp_base.cpp
@@ -172,6 +172,13 @@ void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
@@ -187,6 +194,13 @@ TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
-- 
2.43.0


From 8a6d3c4402c0ef2a2d146c8791028c6e18c69d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:49 +0000
Subject: [PATCH 15/25] fix: micro and nano sleeps of a second and more, and a
 snooze whose wake time ends on a full second, ask for valid times

---
 ecl_time/src/lib/sleep_pos.cpp  | 6 ++++--
 ecl_time/src/lib/snooze_pos.cpp | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ecl_time/src/lib/sleep_pos.cpp b/ecl_time/src/lib/sleep_pos.cpp
index db3764b..f39bb90 100644
--- a/ecl_time/src/lib/sleep_pos.cpp
+++ b/ecl_time/src/lib/sleep_pos.cpp
@@ -101,7 +101,8 @@ void MicroSleep::operator ()() {
 }
 
 void MicroSleep::operator ()(const unsigned long &micro_seconds) {
-  required.tv_nsec = 1000*micro_seconds;
+  required.tv_sec = micro_seconds/1000000;
+  required.tv_nsec = (micro_seconds%1000000)*1000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
@@ -123,7 +124,8 @@ void NanoSleep::operator ()() {
 }
 
 void NanoSleep::operator ()(const unsigned long &nanoseconds) {
-  required.tv_nsec = nanoseconds;
+  required.tv_sec = nanoseconds/1000000000;
+  required.tv_nsec = nanoseconds%1000000000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
diff --git a/ecl_time/src/lib/snooze_pos.cpp b/ecl_time/src/lib/snooze_pos.cpp
index 40062b7..fbf2587 100644
--- a/ecl_time/src/lib/snooze_pos.cpp
+++ b/ecl_time/src/lib/snooze_pos.cpp
@@ -57,7 +57,7 @@ void Snooze::operator()() {
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
-- 
2.43.0


From f48e05baf4568abc4e59d1ede4d5b593451b2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:57 +0000
Subject: [PATCH 16/25] fix: the roots of a cubic without a cubic term are
 those of the quadratic

---
 ecl_geometry/src/lib/polynomial.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index bc64d2e..f1f5364 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -97,6 +97,12 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 	double c = polynomial.coefficients()[1];
 	double d = polynomial.coefficients()[0];
 
+	if ( a == 0 ) {
+		QuadraticPolynomial quadratic;
+		quadratic.coefficients() << d, c, b;
+		return Roots<QuadraticPolynomial>()(quadratic);
+	}
+
 //	form the companion matrix (http://stackoverflow.com/questions/2003465/fastest-numerical-solution-of-a-real-cubic-polynomial)
 //	ecl::linear_algebra::Matrix3d A;
 //	A << 0, 0, -d/a, 1, 0, -c/a, 0, 1, -b/a;
-- 
2.43.0


From d960b827535d36f96f0315d12bd164b6dde3748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:57 +0000
Subject: [PATCH 17/25] fix: a cubic with one real root, at its inflection
 point, does not have three

---
 ecl_geometry/src/lib/polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index f1f5364..2c5cf2f 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -128,7 +128,7 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 //		std::cout << "Single root from cube root function" << std::endl;
 		intercepts.resize(1);
 		intercepts << ecl::cube_root(-q)+ shift;
-	} else if ( q == 0 ) {
+	} else if ( ( q == 0 ) && ( p < 0 ) ) {
 //		std::cout << "Three real roots" << std::endl;
 		// three real roots
 		intercepts.resize(3);
-- 
2.43.0


From 69145d912381caa1fc790ef20505c827ba631f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:22 +0000
Subject: [PATCH 18/25] fix: an intersection that succeeds after one that
 failed has not failed

---
 ecl_geometry/src/lib/polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 2c5cf2f..0088430 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -163,6 +163,7 @@ CartesianPoint2d Intersection< LinearFunction >::operator()(const LinearFunction
 	double b_0 = f.coefficients()[1];
 	double a_1 = g.coefficients()[0];
 	double b_1 = g.coefficients()[1];
+	last_operation_failed = false;
 	if ( isApprox(b_0, b_1) ) { // should use some epsilon distance here.
 		last_operation_failed = true;
 		ecl_throw(StandardException(LOC,OutOfRangeError,"Functions are collinear, no intersection possible."));
-- 
2.43.0


From 9c6bcbdde1c71d742251af6d4e9d4e5a8ccfd2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:59 +0000
Subject: [PATCH 19/25] fix: a tension spline through two points has nothing to
 solve for

---
 ecl_geometry/src/lib/tension_spline_blueprints.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index ed11de8..433c3f2 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -79,8 +79,10 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
      *
      * etc
      */
-    u[1] = beta[1] + beta[0];
-    v[1] = gamma[1]-gamma[0];
+    if ( n > 1 ) { // nothing to solve for with a single segment
+        u[1] = beta[1] + beta[0];
+        v[1] = gamma[1]-gamma[0];
+    }
     for ( unsigned int i = 2; i < n; ++i ) {
         u[i] = beta[i] + beta[i-1] - a[i-1]*a[i-1]/u[i-1];
         v[i] = gamma[i]-gamma[i-1] - a[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From 630caeff7bb9ec68a914cf1fdaf9add28213548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:44 +0000
Subject: [PATCH 20/25] fix: Pose2D keeps doubles, multiplies, and does not
 return references to temporaries

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index dd4544c..7e65896 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -120,7 +120,7 @@ public:
    *
    * @param xyh: x, y, heading wrapped in an eigen vector3d type.
    */
-  Pose2D(): xyh(0.0) {}
+  Pose2D(): xyh(XYH::Zero()) {}
 
   /**
    * @brief Construction by element.
@@ -129,7 +129,7 @@ public:
    * @param y: y-translation
    * @param h: heading (radians)
    */
-  Pose2D(const float& x, const float& y, const float& h) {
+  Pose2D(const Float& x, const Float& y, const Float& h) {
     xyh << x, y, h;
   }
 
@@ -152,7 +152,7 @@ public:
    * @return Pose2D<Float> : the concatenated pose
    */
   Pose2D<Float> operator*(const Pose2D<Float> &pose) const {
-    return concatenate_poses(this->xyh, pose);
+    return concatenate_poses(this->xyh, pose.xyh);
   }
 
   /**
@@ -175,11 +175,11 @@ public:
   const Float& x() const { return xyh[0]; }        //!< @brief Get the x-coordinate.
   const Float& y() const { return xyh[1]; }        //!< @brief Get the y-coordinate.
   const Float& heading() const { return xyh[2]; }  //!< @brief Get the heading.
-  const Translation& translation() const { return xyh. template head<2>(); }
+  Translation translation() const { return xyh. template head<2>(); }
   /**
    * @brief Representation of the heading in matrix form.
    **/
-  const RotationMatrix& rotationMatrix() const {
+  RotationMatrix rotationMatrix() const {
     Float c = std::cos(xyh[2]);
     Float s = std::sin(xyh[2]);
     return (RotationMatrix() << c, -s, s, c).finished();
-- 
2.43.0


From 4535ae829484505643127f970fd09c265485a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:59 +0000
Subject: [PATCH 21/25] fix: a pose can be extended by itself

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index 7e65896..98e549c 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -80,12 +80,8 @@ void extend_pose(
   typename enable_if<ecl::is_float<Float> >::type* dummy = 0)
 {
   (void) dummy;
-  Float c = std::cos(pose[2]);
-  Float s = std::sin(pose[2]);
-  pose <<
-    pose[0] + c*extending_pose[0] - s*extending_pose[1],
-    pose[1] + s*extending_pose[0] + c*extending_pose[1],
-    wrap_angle(pose[2] + extending_pose[2]);
+  // the extending pose might be the pose itself
+  pose = concatenate_poses<Float>(pose, extending_pose);
 }
 
 /*****************************************************************************
-- 
2.43.0


From 4fae40e22c7913c27bcae64c22abe90f58617ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:10 +0000
Subject: [PATCH 22/25] fix: the y axis intercept of a covariance ellipse uses
 the cosine of the rotation, as its formula says

---
 ecl_statistics/src/lib/covariance_ellipsoid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 81fdf9d..b820eb0 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -123,7 +123,7 @@ Vector2f CovarianceEllipsoid<float,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2f( (ellipse_lengths(0)/ellipse_lengths(1)), tanf(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*sinf(angle));
+	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*cosf(angle));
 
 	return intercept_magnitudes;
 }
@@ -219,7 +219,7 @@ Vector2d CovarianceEllipsoid<double,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2( (ellipse_lengths(0)/ellipse_lengths(1)), tan(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*sin(angle));
+	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*cos(angle));
 
 	return intercept_magnitudes;
 }
-- 
2.43.0


From bb76c5ba40de7637a2d0aa0bfcbfe531dcbcd1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:53 +0000
Subject: [PATCH 23/25] fix: a file that does not exist is a NotFoundError for
 open_error, as for open_exception

---
 ecl_devices/src/lib/detail/error_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_devices/src/lib/detail/error_handler.cpp b/ecl_devices/src/lib/detail/error_handler.cpp
index 8d0dd3a..756b2b1 100644
--- a/ecl_devices/src/lib/detail/error_handler.cpp
+++ b/ecl_devices/src/lib/detail/error_handler.cpp
@@ -34,6 +34,7 @@ namespace devices {
 ecl::Error open_error() {
 	int error_result = errno;
 	switch (error_result) {
+		case ( ENOENT ) : return ecl::Error(ecl::NotFoundError);
 		case ( EINVAL ) : return ecl::Error(ecl::InvalidArgError);
 		case ( EACCES ) : return ecl::Error(ecl::PermissionsError);
 		case ( EFBIG )  : case (EOVERFLOW)  :
-- 
2.43.0


From 4f1c7d6edeaa18d4bec88c3c25b8274c9e6afbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:53 +0000
Subject: [PATCH 24/25] fix: socket exceptions carry the location of the caller
 instead of the line of the handler

---
 .../detail/socket_exception_handler_pos.cpp   | 164 +++++++++---------
 1 file changed, 82 insertions(+), 82 deletions(-)

diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 283291a..10e91bc 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -33,14 +33,14 @@ namespace devices {
 
 StandardException socket_exception(const char* loc) {
     switch( errno ) {
-        case ( EACCES )     : return StandardException(LOC,OpenError,"Unable to open socket. Permission to create is denied.");
-        case ( EAFNOSUPPORT): return StandardException(LOC,NotSupportedError,"Unable to open socket. Your implementation does not support the specified address family (in this case AF_INET or otherwise known as ipv4).");
-        case ( EINVAL )     : return StandardException(LOC,InvalidArgError,"Unable to open socket. Unknown or invalid protocol, family.");
-        case ( EMFILE )     : return StandardException(LOC,OutOfRangeError,"Unable to open socket. Process file table overflow.");
-        case ( ENFILE )     : return StandardException(LOC,OutOfResourcesError,"Unable to open socket. The system limit on the number of open files has been reached.");
-        case ( ENOBUFS )    : return StandardException(LOC,MemoryError,"Unable to open socket. Insufficient memory available.");
-        case ( ENOMEM )     : return StandardException(LOC,MemoryError,"Unable to open socket. Insufficient memory available.");
-        case ( EPROTONOSUPPORT )    : return StandardException(LOC,NotSupportedError,"Unable to open socket. The protocol type (socket streams) is not supported within this address family (ipv4).");
+        case ( EACCES )     : return StandardException(loc,OpenError,"Unable to open socket. Permission to create is denied.");
+        case ( EAFNOSUPPORT): return StandardException(loc,NotSupportedError,"Unable to open socket. Your implementation does not support the specified address family (in this case AF_INET or otherwise known as ipv4).");
+        case ( EINVAL )     : return StandardException(loc,InvalidArgError,"Unable to open socket. Unknown or invalid protocol, family.");
+        case ( EMFILE )     : return StandardException(loc,OutOfRangeError,"Unable to open socket. Process file table overflow.");
+        case ( ENFILE )     : return StandardException(loc,OutOfResourcesError,"Unable to open socket. The system limit on the number of open files has been reached.");
+        case ( ENOBUFS )    : return StandardException(loc,MemoryError,"Unable to open socket. Insufficient memory available.");
+        case ( ENOMEM )     : return StandardException(loc,MemoryError,"Unable to open socket. Insufficient memory available.");
+        case ( EPROTONOSUPPORT )    : return StandardException(loc,NotSupportedError,"Unable to open socket. The protocol type (socket streams) is not supported within this address family (ipv4).");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown errno [" << errno << "]";
@@ -51,19 +51,19 @@ StandardException socket_exception(const char* loc) {
 
 StandardException bind_exception(const char* loc) {
     switch( errno ) {
-        case ( EACCES )     : return StandardException(LOC,PermissionsError,"Unable to bind the socket. The address is protected (maybe need to be superuser?).");
-        case ( EADDRINUSE ) : return StandardException(LOC,BusyError,"Unable to bind the socket. Address already in use (might be timing out, try again in a moment).");
-        case ( EBADF )      : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. Not a valid socket descriptor.");
-        case ( EINVAL )     : return StandardException(LOC,BusyError,"Unable to bind the socket. The socket is already bound to an address.");
-        case ( ENOTSOCK )   : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. The descriptor is a file descriptor, not a socket descriptor.");
-        case ( EADDRNOTAVAIL ) : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. Interface does not exist or is not local.");
-        case ( EFAULT )     : return StandardException(LOC,OutOfRangeError,"Unable to bind the socket. Socket specification is outside the user address space.");
-        case ( ELOOP )      : return StandardException(LOC,SystemFailureError,"Unable to bind the socket. Too many symbolic links involved.");
-        case ( ENAMETOOLONG )  : return StandardException(LOC,InvalidArgError,"Unable to bind the socket. Address is too long.");
-        case ( ENOENT )     : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. The file does not exist.");
-        case ( ENOMEM )     : return StandardException(LOC,MemoryError,"Unable to bind the socket. Insufficient kernel memory.");
-        case ( ENOTDIR )    : return StandardException(LOC,InvalidArgError,"Unable to bind the socket. A component of the path prefix is not a directory.");
-        case ( EROFS )      : return StandardException(LOC,PermissionsError,"Unable to bind the socket. Socket inode resides on a read only file system.");
+        case ( EACCES )     : return StandardException(loc,PermissionsError,"Unable to bind the socket. The address is protected (maybe need to be superuser?).");
+        case ( EADDRINUSE ) : return StandardException(loc,BusyError,"Unable to bind the socket. Address already in use (might be timing out, try again in a moment).");
+        case ( EBADF )      : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. Not a valid socket descriptor.");
+        case ( EINVAL )     : return StandardException(loc,BusyError,"Unable to bind the socket. The socket is already bound to an address.");
+        case ( ENOTSOCK )   : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. The descriptor is a file descriptor, not a socket descriptor.");
+        case ( EADDRNOTAVAIL ) : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. Interface does not exist or is not local.");
+        case ( EFAULT )     : return StandardException(loc,OutOfRangeError,"Unable to bind the socket. Socket specification is outside the user address space.");
+        case ( ELOOP )      : return StandardException(loc,SystemFailureError,"Unable to bind the socket. Too many symbolic links involved.");
+        case ( ENAMETOOLONG )  : return StandardException(loc,InvalidArgError,"Unable to bind the socket. Address is too long.");
+        case ( ENOENT )     : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. The file does not exist.");
+        case ( ENOMEM )     : return StandardException(loc,MemoryError,"Unable to bind the socket. Insufficient kernel memory.");
+        case ( ENOTDIR )    : return StandardException(loc,InvalidArgError,"Unable to bind the socket. A component of the path prefix is not a directory.");
+        case ( EROFS )      : return StandardException(loc,PermissionsError,"Unable to bind the socket. Socket inode resides on a read only file system.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -74,20 +74,20 @@ StandardException bind_exception(const char* loc) {
 
 StandardException accept_exception(const char* loc) {
     switch( errno ) {
-		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to accept client connection. The socket is non-blocking and no connections are available.");
-		case ( EBADF )       : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. Not a valid socket descriptor.");
-		case ( ECONNABORTED ): return StandardException(LOC,InterruptedError,"Unable to accept client connection. A connection has been aborted.");
-		case ( EINTR )       : return StandardException(LOC,InterruptedError,"Unable to accept client connection. A system signal has interrupted.");
-		case ( EINVAL )      : return StandardException(LOC,UsageError,"Unable to accept client connection. Socket is not listening for connections or address length is invalid.");
-		case ( EMFILE )      : return StandardException(LOC,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
-		case ( ENFILE )      : return StandardException(LOC,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
-		case ( ENOTSOCK )    : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. The descriptor is a file descriptor, not a socket descriptor..");
-		case ( EOPNOTSUPP )  : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. The client socket is not of type SOCK_STREAM.");
-		case ( EFAULT )      : return StandardException(LOC,PermissionsError,"Unable to accept client connection. The address argument is not writable by the user.");
-		case ( ENOBUFS )     : return StandardException(LOC,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
-		case ( ENOMEM )      : return StandardException(LOC,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
-		case ( EPROTO )      : return StandardException(LOC,InvalidArgError,"Unable to accept client connection. Protocol error.");
-		case ( EPERM )       : return StandardException(LOC,PermissionsError,"Unable to accept client connection. Permissions do not allow this connection.");
+		case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to accept client connection. The socket is non-blocking and no connections are available.");
+		case ( EBADF )       : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. Not a valid socket descriptor.");
+		case ( ECONNABORTED ): return StandardException(loc,InterruptedError,"Unable to accept client connection. A connection has been aborted.");
+		case ( EINTR )       : return StandardException(loc,InterruptedError,"Unable to accept client connection. A system signal has interrupted.");
+		case ( EINVAL )      : return StandardException(loc,UsageError,"Unable to accept client connection. Socket is not listening for connections or address length is invalid.");
+		case ( EMFILE )      : return StandardException(loc,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
+		case ( ENFILE )      : return StandardException(loc,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
+		case ( ENOTSOCK )    : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. The descriptor is a file descriptor, not a socket descriptor..");
+		case ( EOPNOTSUPP )  : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. The client socket is not of type SOCK_STREAM.");
+		case ( EFAULT )      : return StandardException(loc,PermissionsError,"Unable to accept client connection. The address argument is not writable by the user.");
+		case ( ENOBUFS )     : return StandardException(loc,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
+		case ( ENOMEM )      : return StandardException(loc,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
+		case ( EPROTO )      : return StandardException(loc,InvalidArgError,"Unable to accept client connection. Protocol error.");
+		case ( EPERM )       : return StandardException(loc,PermissionsError,"Unable to accept client connection. Permissions do not allow this connection.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -99,15 +99,15 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
-		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
-		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
-		case ( EINTR       ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Signal interruption.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError,"Unable to read the socket. Invalid argument was used.");
-		case ( ENOMEM      ) : return StandardException(LOC,MemoryError,"Unable to read the socket. Could not allocate memory for the operation.");
-		case ( ENOTCONN    ) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Has not been connected.");
-		case ( ENOTSOCK    ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. The file descriptor does not refer to a socket.");
+		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
+		case ( ECONNREFUSED) : return StandardException(loc,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
+		case ( EFAULT      ) : return StandardException(loc,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
+		case ( EINTR       ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Signal interruption.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError,"Unable to read the socket. Invalid argument was used.");
+		case ( ENOMEM      ) : return StandardException(loc,MemoryError,"Unable to read the socket. Could not allocate memory for the operation.");
+		case ( ENOTCONN    ) : return StandardException(loc,ConnectionError,"Unable to read the socket. Has not been connected.");
+		case ( ENOTSOCK    ) : return StandardException(loc,InvalidObjectError,"Unable to read the socket. The file descriptor does not refer to a socket.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -119,22 +119,22 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
-		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
-		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
-		case ( ECONNRESET  ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Connection reset by peer.");
-		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to write to the socket. Buffer has an address problem.");
-		case ( EINTR       ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Signal interruption.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError,"Unable to write to the socket. Invalid argument was used.");
-		case ( EISCONN     ) : return StandardException(LOC,ConnectionError,"Unable to write to the socket. Connection mismatch???");
-		case ( EMSGSIZE    ) : return StandardException(LOC,WriteError,"Unable to write to the socket. Socket type required to send atomically, but the size of this message is too large to handle in this way.");
-		case ( ENOBUFS     ) : return StandardException(LOC,OutOfResourcesError,"Unable to write to the socket. Output queue is full (could be caused by transient congestion, but this doesn't usually happen in linux which typically just drops packets).");
-		case ( ENOMEM      ) : return StandardException(LOC,MemoryError,"Unable to write to the socket. Could not allocate memory for the operation.");
-		case ( ENOTCONN    ) : return StandardException(LOC,ConnectionError,"Unable to write to the socket. Has not been connected.");
-		case ( ENOTSOCK    ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. The file descriptor does not refer to a socket.");
-		case ( EOPNOTSUPP  ) : return StandardException(LOC,NotSupportedError,"Unable to write to the socket. Some api here not supported.");
-		case ( EPIPE       ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Local end has been shutdown. Probably bad and will receive a SIGPIPE signal too.");
+		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
+		case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
+		case ( EACCES      ) : return StandardException(loc,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
+		case ( ECONNRESET  ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Connection reset by peer.");
+		case ( EFAULT      ) : return StandardException(loc,SystemFailureError,"Unable to write to the socket. Buffer has an address problem.");
+		case ( EINTR       ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Signal interruption.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError,"Unable to write to the socket. Invalid argument was used.");
+		case ( EISCONN     ) : return StandardException(loc,ConnectionError,"Unable to write to the socket. Connection mismatch???");
+		case ( EMSGSIZE    ) : return StandardException(loc,WriteError,"Unable to write to the socket. Socket type required to send atomically, but the size of this message is too large to handle in this way.");
+		case ( ENOBUFS     ) : return StandardException(loc,OutOfResourcesError,"Unable to write to the socket. Output queue is full (could be caused by transient congestion, but this doesn't usually happen in linux which typically just drops packets).");
+		case ( ENOMEM      ) : return StandardException(loc,MemoryError,"Unable to write to the socket. Could not allocate memory for the operation.");
+		case ( ENOTCONN    ) : return StandardException(loc,ConnectionError,"Unable to write to the socket. Has not been connected.");
+		case ( ENOTSOCK    ) : return StandardException(loc,InvalidObjectError,"Unable to write to the socket. The file descriptor does not refer to a socket.");
+		case ( EOPNOTSUPP  ) : return StandardException(loc,NotSupportedError,"Unable to write to the socket. Some api here not supported.");
+		case ( EPIPE       ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Local end has been shutdown. Probably bad and will receive a SIGPIPE signal too.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -146,10 +146,10 @@ StandardException send_exception(const char* loc) {
 StandardException ioctl_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError, "Socket control error. The file descriptor was not valid.");
-		case ( EFAULT      ) : return StandardException(LOC,OutOfRangeError, "Socket control error. Tried to reference inaccessible memory.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError, "Socket control error. Ioctl input arguments were not valid.");
-		case ( ENOTTY      ) : return StandardException(LOC,InvalidObjectError, "Socket control error. The file descriptor is not valid or this operation may not be performed on it.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError, "Socket control error. The file descriptor was not valid.");
+		case ( EFAULT      ) : return StandardException(loc,OutOfRangeError, "Socket control error. Tried to reference inaccessible memory.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError, "Socket control error. Ioctl input arguments were not valid.");
+		case ( ENOTTY      ) : return StandardException(loc,InvalidObjectError, "Socket control error. The file descriptor is not valid or this operation may not be performed on it.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -164,11 +164,11 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 			std::string header;
 			header += "Unable to correctly determine the server hostname: ";
 			header += hostname;
-			return StandardException(LOC,OpenError,header);
+			return StandardException(loc,OpenError,header);
 		}
-		case ( TRY_AGAIN ) : return StandardException(LOC, OpenError,"A temporary error occurred on an authoritative name server. Try again later.");
-		case ( NO_ADDRESS )  : return StandardException(LOC,InvalidArgError,"Requested server hostname is valid, but does not have an IP address.");
-		case ( NO_RECOVERY ) : return StandardException(LOC,UnknownError);
+		case ( TRY_AGAIN ) : return StandardException(loc, OpenError,"A temporary error occurred on an authoritative name server. Try again later.");
+		case ( NO_ADDRESS )  : return StandardException(loc,InvalidArgError,"Requested server hostname is valid, but does not have an IP address.");
+		case ( NO_RECOVERY ) : return StandardException(loc,UnknownError);
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << h_errno << "]";
@@ -179,21 +179,21 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
-        case ( ( EACCES ) || ( EPERM ) ): return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
-        case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
-        case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
-        case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
-        case ( EALREADY )    : return StandardException(LOC,BlockingError,"Socket is non-blocking and a previous connection attempt has not yet completed (wtf?).");
-        case ( EBADF )       : return StandardException(LOC,InvalidObjectError,"Not a valid socket descriptor.");
-        case ( ECONNREFUSED ): return StandardException(LOC,ConnectionRefusedError,"Connection refused (no-one listening).");
-        case ( EFAULT )      : return StandardException(LOC,OutOfRangeError,"Socket specification is outside the user address space.");
-        case ( EINPROGRESS ) : return StandardException(LOC,BlockingError,"Socket is non-blocking and the connection cannot be completed immediately (try select or poll for writing).");
-        case ( EINTR )       : return StandardException(LOC,InterruptedError,"Connection interrupted by a system signal.");
-        case ( EISCONN )     : return StandardException(LOC,ConnectionError,"This socket is already connected.");
+        case ( ( EACCES ) || ( EPERM ) ): return StandardException(loc,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EADDRINUSE )  : return StandardException(loc,BusyError,"Address already in use.");
+        case ( EAFNOSUPPORT ): return StandardException(loc,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
+        case ( EAGAIN )      : return StandardException(loc,OutOfResourcesError,"No free local ports remaining.");
+        case ( EALREADY )    : return StandardException(loc,BlockingError,"Socket is non-blocking and a previous connection attempt has not yet completed (wtf?).");
+        case ( EBADF )       : return StandardException(loc,InvalidObjectError,"Not a valid socket descriptor.");
+        case ( ECONNREFUSED ): return StandardException(loc,ConnectionRefusedError,"Connection refused (no-one listening).");
+        case ( EFAULT )      : return StandardException(loc,OutOfRangeError,"Socket specification is outside the user address space.");
+        case ( EINPROGRESS ) : return StandardException(loc,BlockingError,"Socket is non-blocking and the connection cannot be completed immediately (try select or poll for writing).");
+        case ( EINTR )       : return StandardException(loc,InterruptedError,"Connection interrupted by a system signal.");
+        case ( EISCONN )     : return StandardException(loc,ConnectionError,"This socket is already connected.");
         case ( ENETUNREACH ) :
-        case ( EHOSTUNREACH ): return StandardException(LOC,NotFoundError,"The host is unreachable.");
-        case ( ENOTSOCK )    : return StandardException(LOC,InvalidObjectError,"This is not a socket file descriptor.");
-        case ( ETIMEDOUT )   : return StandardException(LOC,TimeOutError,"Timed out.");
+        case ( EHOSTUNREACH ): return StandardException(loc,NotFoundError,"The host is unreachable.");
+        case ( ENOTSOCK )    : return StandardException(loc,InvalidObjectError,"This is not a socket file descriptor.");
+        case ( ETIMEDOUT )   : return StandardException(loc,TimeOutError,"Timed out.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
-- 
2.43.0


From e26a05fd3423c425a6b2b0ee6a914e5e3428d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:53 +0000
Subject: [PATCH 25/25] fix: EAGAIN and EACCES are recognised by the socket
 error handlers (the case labels were the constant 1)

---
 .../ecl/devices/detail/socket_error_handler_pos.hpp       | 6 +++---
 .../src/lib/detail/socket_exception_handler_pos.cpp       | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
index a0386f4..2b56e53 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
@@ -112,7 +112,7 @@ inline ecl::Error accept_error() {
 inline ecl::Error receive_error() {
 
   switch( errno ) {
-              case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
+              case ( EAGAIN      ) : return ecl::Error(ecl::InterruptedError);
               case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
               case ( ECONNREFUSED) : return ecl::Error(ecl::ConnectionError);
               case ( EFAULT      ) : return ecl::Error(ecl::SystemFailureError);
@@ -148,7 +148,6 @@ inline ecl::Error ioctl_error() {
 inline ecl::Error send_error() {
 
   switch( errno ) {
-          case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EACCES      ) : return ecl::Error(ecl::PermissionsError);
           case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
@@ -188,7 +187,8 @@ inline ecl::Error gethostbyname_error() {
  */
 inline ecl::Error connection_error() {
   switch( errno ) {
-      case ( ( EACCES ) || ( EPERM ) ): return ecl::Error(ecl::PermissionsError);
+      case ( EACCES )      :
+      case ( EPERM )       : return ecl::Error(ecl::PermissionsError);
       case ( EADDRINUSE )  : return ecl::Error(ecl::BusyError);
       case ( EAFNOSUPPORT ): return ecl::Error(ecl::NotSupportedError);
       case ( EAGAIN )      : return ecl::Error(ecl::OutOfResourcesError);
diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 10e91bc..a30fd5f 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -99,7 +99,7 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EAGAIN      ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
 		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
 		case ( ECONNREFUSED) : return StandardException(loc,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
 		case ( EFAULT      ) : return StandardException(loc,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
@@ -119,8 +119,7 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
-		case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
+				case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EACCES      ) : return StandardException(loc,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
 		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
 		case ( ECONNRESET  ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Connection reset by peer.");
@@ -179,7 +178,8 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
-        case ( ( EACCES ) || ( EPERM ) ): return StandardException(loc,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EACCES )      :
+        case ( EPERM )       : return StandardException(loc,PermissionsError,"Write permission on the socket denied or firewalled.");
         case ( EADDRINUSE )  : return StandardException(loc,BusyError,"Address already in use.");
         case ( EAFNOSUPPORT ): return StandardException(loc,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
         case ( EAGAIN )      : return StandardException(loc,OutOfResourcesError,"No free local ports remaining.");
-- 
2.43.0

