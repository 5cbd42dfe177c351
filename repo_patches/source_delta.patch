From 7ccc1d4c66d9c14c159e8ef52c03fd4c953f19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:07 +0000
Subject: [PATCH 01/32] fix: WriteBufferFixedSize: accept a block that exactly
 fills the buffer and do not overflow on huge lengths

---
 src/WriteBufferFixedSize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WriteBufferFixedSize.h b/src/WriteBufferFixedSize.h
index 6e0fc83..990ad0d 100644
--- a/src/WriteBufferFixedSize.h
+++ b/src/WriteBufferFixedSize.h
@@ -85,7 +85,7 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::WriteBufferInterface::push()
       bool push(const uint8_t* bytes, const uint32_t length) override
       {
-        bool return_value = BUFFER_SIZE > (write_index_ + length);
+        bool return_value = length <= (BUFFER_SIZE - write_index_);
         if(return_value)
         {
           memcpy(data_.data() + write_index_, bytes, length);
-- 
2.43.0


From c226e5febbdae3d3b56625433e94546ea205cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:07 +0000
Subject: [PATCH 02/32] fix: ReadBufferFixedSize: report the bytes left to read
 and never move the read index backwards

---
 src/ReadBufferFixedSize.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ReadBufferFixedSize.h b/src/ReadBufferFixedSize.h
index ed38e9e..34b2257 100644
--- a/src/ReadBufferFixedSize.h
+++ b/src/ReadBufferFixedSize.h
@@ -54,7 +54,7 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::ReadBufferInterface::get_size()
       uint32_t get_size() const override
       {
-        return write_index_;
+        return (write_index_ > read_index_) ? (write_index_ - read_index_) : 0;
       }
 
       //! \see ::EmbeddedProto::ReadBufferInterface::get_max_size()
@@ -88,11 +88,10 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::ReadBufferInterface::advance(const uint32_t N)
       bool advance(const uint32_t N) override
       {
-        const uint32_t new_read_index = read_index_ + N;
-        const bool return_value = write_index_ >= new_read_index;
+        const bool return_value = N <= get_size();
         if(return_value)
         {
-          read_index_ = new_read_index;
+          read_index_ += N;
         }
         return return_value;
       }
-- 
2.43.0


From 08b6ca0e596adcc171b7cc341b3cb4f4cd609634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:07 +0000
Subject: [PATCH 03/32] fix: SerializeVarint: do not lose the result of an
 earlier refused push

---
 src/WireFormatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 6db0422..61e8743 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -532,7 +532,7 @@ namespace EmbeddedProto
           memory_free = buffer.push(static_cast<uint8_t>(value | VARINT_MSB_BYTE));
           value >>= VARINT_SHIFT_N_BITS;
         }
-        memory_free = buffer.push(static_cast<uint8_t>(value));
+        memory_free = buffer.push(static_cast<uint8_t>(value)) && memory_free;
 
         const Error return_value = memory_free ? Error::NO_ERRORS : Error::BUFFER_FULL;
         return return_value;
-- 
2.43.0


From d523f8d6b45e8b4feb5413dcfc37c5429a77df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:07 +0000
Subject: [PATCH 04/32] fix: ReadBufferSection: advance(n) only returns true
 when n bytes were left, a failed pop does not consume

---
 src/ReadBufferSection.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index c0c09a9..353e214 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -77,11 +77,11 @@ namespace EmbeddedProto
 
   bool ReadBufferSection::advance(const uint32_t n_bytes)
   {
-    bool result = 0 < size_;
-    if(result) 
+    bool result = n_bytes <= size_;
+    if(0 < size_) 
     {
       uint32_t n = (n_bytes <= size_) ? n_bytes : size_;
-      result = buffer_.advance(n);
+      result = buffer_.advance(n) && result;
       size_ -= n;
     }
     return result;
@@ -93,7 +93,10 @@ namespace EmbeddedProto
     if(result)
     {
       result = buffer_.pop(byte);
-      --size_;
+      if(result)
+      {
+        --size_;
+      }
     }
     return result;
   }
-- 
2.43.0


From 0dd01dcf93ed3636b4ff78b656844cce9590a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:46 +0000
Subject: [PATCH 05/32] fix: report a nested message which is cut off as an
 error

---
 src/MessageInterface.cpp | 10 ++++++++++
 src/RepeatedField.h      | 13 +++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index db9b4b6..3f8f4fc 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -80,10 +80,20 @@ namespace EmbeddedProto
     {
       uint32_t size = 0;
       return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, size);
+      if((::EmbeddedProto::Error::NO_ERRORS == return_value) && (size > buffer.get_size()))
+      {
+        // The message is cut off, less bytes are available than its length states.
+        return_value = ::EmbeddedProto::Error::END_OF_BUFFER;
+      }
       ::EmbeddedProto::ReadBufferSection bufferSection(buffer, size);
       if(::EmbeddedProto::Error::NO_ERRORS == return_value)
       {
         return_value = deserialize(bufferSection);
+        if((::EmbeddedProto::Error::NO_ERRORS == return_value) && (0 < bufferSection.get_size()))
+        {
+          // The buffer ran out of data before the end of the message.
+          return_value = ::EmbeddedProto::Error::END_OF_BUFFER;
+        }
       }
     }
     return return_value;
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index d6ea279..dd2b0c8 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -377,9 +377,22 @@ namespace EmbeddedProto
             uint32_t size;
             return_value = WireFormatter::DeserializeVarint(buffer, size);
             if(Error::NO_ERRORS == return_value) 
+            {
+              if(size > buffer.get_size())
+              {
+                // The message is cut off, less bytes are available than its length states.
+                return_value = Error::END_OF_BUFFER;
+              }
+            }
+            if(Error::NO_ERRORS == return_value)
             {
               ReadBufferSection bufferSection(buffer, size);
               return_value = this->get(index).deserialize(bufferSection);
+              if((Error::NO_ERRORS == return_value) && (0 < bufferSection.get_size()))
+              {
+                // The buffer ran out of data before the end of the message.
+                return_value = Error::END_OF_BUFFER;
+              }
             }
           }
           else 
-- 
2.43.0


From c8f1c21f6125d37ca1576adc3b38d894859a2618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:46 +0000
Subject: [PATCH 06/32] fix: report a packed repeated field which is cut off or
 has an invalid length as an error

---
 src/RepeatedField.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index dd2b0c8..3549831 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -339,25 +339,24 @@ namespace EmbeddedProto
       {
         uint32_t size = 0;
         Error return_value = WireFormatter::DeserializeVarint(buffer, size);
+        if((Error::NO_ERRORS == return_value) && (size > buffer.get_size()))
+        {
+          // The array is cut off, less bytes are available than its length states.
+          return_value = Error::END_OF_BUFFER;
+        }
         ReadBufferSection bufferSection(buffer, size);
         DATA_TYPE x;
         
-        return_value = x.deserialize(bufferSection);
-        while(Error::NO_ERRORS == return_value)
+        // Every element should lie completely within the section.
+        while((Error::NO_ERRORS == return_value) && (0 < bufferSection.get_size()))
         {
-          return_value = this->add(x);
+          return_value = x.deserialize(bufferSection);
           if(Error::NO_ERRORS == return_value)
           {
-            return_value = x.deserialize(bufferSection);
+            return_value = this->add(x);
           }
         }
 
-        // We expect the buffersection to be empty, in that case everything is fine..
-        if(Error::END_OF_BUFFER == return_value)
-        {
-          return_value = Error::NO_ERRORS;
-        }
-
         return return_value;
       }
 
-- 
2.43.0


From e49d6123921b1aec049baff8dc4f07069db2553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:46 +0000
Subject: [PATCH 07/32] fix: report an unknown length delimited field which is
 cut off as an error

---
 src/MessageInterface.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index 3f8f4fc..3657705 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -156,10 +156,18 @@ namespace EmbeddedProto
   {
     // First read the number of bytes 
     uint32_t n_bytes = 0;
-    const Error return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, n_bytes);
+    Error return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, n_bytes);
     if(Error::NO_ERRORS == return_value)
     {
-      buffer.advance(n_bytes);
+      if(n_bytes <= buffer.get_size())
+      {
+        buffer.advance(n_bytes);
+      }
+      else
+      {
+        // The field is cut off, less bytes are available than its length states.
+        return_value = Error::END_OF_BUFFER;
+      }
     }
     return return_value;
   }
-- 
2.43.0


From 2c67489269a472f9ae2a68593256ac0d6f4f3fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:46 +0000
Subject: [PATCH 08/32] fix: do not interpret the content of an unknown group
 as fields of the message

---
 src/MessageInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index 3657705..0c5950e 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -124,7 +124,8 @@ namespace EmbeddedProto
         break;
 
       default:
-        // We should never get here. DeserializeTag catches this case.
+        // Groups are not supported, there is no telling where they end.
+        return_value = Error::INVALID_WIRETYPE;
         break;
     }
 
-- 
2.43.0


From 1e2cf0ed26dcd86843cbc34a60a2b2eec4124c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:00 +0000
Subject: [PATCH 09/32] fix: report data which ends half way a tag as an error

---
 src/WireFormatter.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 61e8743..a7b7721 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -336,10 +336,16 @@ namespace EmbeddedProto
       static Error DeserializeTag(ReadBufferInterface& buffer, WireType& type, uint32_t& id) 
       {
         uint32_t temp_value;
+        uint8_t n_bytes_read = 0;
         // Read the next varint considered to be a tag.
-        Error return_value = DeserializeVarint(buffer, temp_value);
+        Error return_value = DeserializeVarint(buffer, temp_value, &n_bytes_read);
         
-        if(Error::NO_ERRORS == return_value) 
+        if((Error::END_OF_BUFFER == return_value) && (0 < n_bytes_read))
+        {
+          // The data ended half way a tag, this is not the regular end of a message.
+          return_value = Error::OVERLONG_VARINT;
+        }
+        else if(Error::NO_ERRORS == return_value) 
         {
           // Next check the validity of the wire type.
           if((temp_value &  0x07) <= static_cast<uint32_t>(WireType::FIXED32))
@@ -542,10 +548,12 @@ namespace EmbeddedProto
       /*!
         \param[in] buffer The data buffer from which bytes are popped.
         \param[out] value The variable in which the varint is returned.
+        \param[out] n_bytes_read When given, the number of bytes obtained from the buffer.
         \return A value from the Error enum, NO_ERROR in case everything is fine.
       */
       template<class UINT_TYPE>
-      static Error DeserializeVarint(ReadBufferInterface& buffer, UINT_TYPE& value) 
+      static Error DeserializeVarint(ReadBufferInterface& buffer, UINT_TYPE& value, 
+                                     uint8_t* n_bytes_read = nullptr) 
       {
         static_assert(std::is_same<UINT_TYPE, uint32_t>::value || 
                       std::is_same<UINT_TYPE, uint64_t>::value, 
@@ -573,6 +581,11 @@ namespace EmbeddedProto
           ++i;
         } while((byte & VARINT_MSB_BYTE) && (i < N_BYTES_IN_VARINT) && result);
 
+        if(nullptr != n_bytes_read)
+        {
+          *n_bytes_read = result ? i : static_cast<uint8_t>(i - 1);
+        }
+
         Error return_value = Error::NO_ERRORS;
         if(result)
         {
-- 
2.43.0


From 789c93c124eed464ce64670cfd7de1f0dbf22b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:00 +0000
Subject: [PATCH 10/32] fix: accept uint32, bool and enum values which are
 encoded with up to ten bytes

---
 src/Fields.h        |  3 ++-
 src/WireFormatter.h | 24 +++++++++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/Fields.h b/src/Fields.h
index 4e391f9..0390f08 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -408,7 +408,8 @@ namespace EmbeddedProto
       template<Field::FieldTypes DES_FIELDTYPE, typename std::enable_if<Field::FieldTypes::enumeration == DES_FIELDTYPE, bool>::type = true>
       Error deserialize_(ReadBufferInterface& buffer)
       { 
-        uint32_t value = 0;
+        // Use a 64 value as other implementations serialize negative values with 10 bytes.
+        uint64_t value = 0;
         const Error return_value = WireFormatter::DeserializeVarint(buffer, value);
         if(::EmbeddedProto::Error::NO_ERRORS == return_value)
         {
diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index a7b7721..15fdcec 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -368,7 +368,15 @@ namespace EmbeddedProto
         static_assert(std::is_same<UINT_TYPE, uint32_t>::value || 
                       std::is_same<UINT_TYPE, uint64_t>::value, "Wrong type passed to DeserializeUInt.");
         
-        return DeserializeVarint(buffer, value);
+        // Use a 64 value even for 32 bit as some implementations serialize 32 bit values with 10 bytes.
+        uint64_t uint_value64;
+
+        Error result = DeserializeVarint(buffer, uint_value64);
+        if(Error::NO_ERRORS == result) 
+        {
+          value = static_cast<UINT_TYPE>(uint_value64);
+        }
+        return result;
       }
 
       template<class INT_TYPE>
@@ -489,15 +497,13 @@ namespace EmbeddedProto
 
       static Error DeserializeBool(ReadBufferInterface& buffer, bool& value) 
       {
-        uint8_t byte;
-        Error result = Error::NO_ERRORS;
-        if(buffer.pop(byte))
-        {
-          value = static_cast<bool>(byte);
-        }
-        else 
+        // On the wire a bool is a varint like all others, it is allowed to be longer than one byte.
+        uint64_t uint_value64;
+
+        Error result = DeserializeVarint(buffer, uint_value64);
+        if(Error::NO_ERRORS == result)
         {
-          result = Error::END_OF_BUFFER;
+          value = (0 != uint_value64);
         }
         return result;
       }
-- 
2.43.0


From bf6b7fbd2f429516a7af1cdd27038f0c6424ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:00 +0000
Subject: [PATCH 11/32] fix: accept repeated base fields which are not packed

---
 src/RepeatedField.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 3549831..3234fa9 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -229,6 +229,11 @@ namespace EmbeddedProto
         {
           return_value = this->deserialize(buffer);
         }
+        else if(REPEATED_FIELD_IS_PACKED)
+        {
+          // Parsers have to accept base fields which are not packed as well.
+          return_value = deserialize_element(buffer, wire_type);
+        }
         return return_value;
       }
 
@@ -360,6 +365,19 @@ namespace EmbeddedProto
         return return_value;
       }
 
+      //! Deserialize a single element of a base type which was not packed by the sender.
+      Error deserialize_element(ReadBufferInterface& buffer, 
+                                const ::EmbeddedProto::WireFormatter::WireType& wire_type)
+      {
+        DATA_TYPE x;
+        Error return_value = x.deserialize_check_type(buffer, wire_type);
+        if(Error::NO_ERRORS == return_value)
+        {
+          return_value = this->add(x);
+        }
+        return return_value;
+      }
+
       Error deserialize_unpacked(ReadBufferInterface& buffer)
       {
         Error return_value = Error::NO_ERRORS;
-- 
2.43.0


From e43980c3a0371a0ad411a633d9c8dc10ba1d0afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:00 +0000
Subject: [PATCH 12/32] fix: RepeatedFieldFixedSize: do not show old elements
 again when growing after being shortened

---
 src/RepeatedFieldFixedSize.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/RepeatedFieldFixedSize.h b/src/RepeatedFieldFixedSize.h
index 5a00e1c..e15ff11 100644
--- a/src/RepeatedFieldFixedSize.h
+++ b/src/RepeatedFieldFixedSize.h
@@ -89,7 +89,7 @@ namespace EmbeddedProto
         {
           data_[i] = rhs.get_const(i);
         }
-        current_length_ = rhs.get_length();
+        set_length(rhs.get_length());
         
         return *this;
       }
@@ -157,7 +157,7 @@ namespace EmbeddedProto
             (data_[i]) = (*d);
             ++d;
           }
-          current_length_ = length;        
+          set_length(length);
         }
         else 
         {
@@ -195,6 +195,16 @@ namespace EmbeddedProto
 
     private:
 
+      //! Set the number of items in use, items no longer in use are set to the default value.
+      void set_length(const uint32_t length)
+      {
+        for(uint32_t i = length; i < current_length_; ++i)
+        {
+          data_[i].clear();
+        }
+        current_length_ = length;
+      }
+
       //! Number of item in the data array.
       uint32_t current_length_ = 0;
 
-- 
2.43.0


From a388c77749e2f2347eea5193b6ea1cc04ceac112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:00 +0000
Subject: [PATCH 13/32] fix: FieldString/FieldBytes: do not leave old data
 behind a shorter value

---
 src/FieldStringBytes.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 605da20..16a147e 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -38,6 +38,7 @@
 #include <cstdint>
 #include <cstring>
 #include <type_traits>
+#include <algorithm>
 #include <array>
 
 
@@ -161,8 +162,10 @@ namespace EmbeddedProto
           Error return_value = Error::NO_ERRORS;
           if(MAX_LENGTH >= length)
           {
+            memmove(data_.data(), data, length);
+            // Do not leave parts of the previous data behind this data, terminates shorter strings.
+            std::fill(data_.begin() + length, data_.end(), static_cast<DATA_TYPE>(0));
             current_length_ = length;
-            memcpy(data_.data(), data, length);
           }
           else
           {
@@ -337,12 +340,8 @@ namespace EmbeddedProto
         if(nullptr != str) {
           const uint32_t str_MAX_LENGTH = strnlen(str, MAX_LENGTH + 1);
           this->set_length(str_MAX_LENGTH);
-          uint32_t this_length = this->get_length();
-          // If it fits in this object copy the null terminator.
-          if(MAX_LENGTH > this_length) {
-            ++this_length;
-          }
-          strncpy(this->get(), str, this_length);
+          // If it is shorter then this object, the remainder is filled with null terminators.
+          strncpy(this->get(), str, MAX_LENGTH);
         }
         else {
           this->clear();
-- 
2.43.0


From e074822c6db714ae4621964efc8dc528bb2d322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 14/32] fix: serialize float and double fields holding negative
 zero

---
 generator/EmbeddedProto/Field.py                         | 3 +++
 generator/EmbeddedProto/templates/FieldBasic_Serialize.h | 3 +++
 generator/EmbeddedProto/templates/Header.h               | 1 +
 3 files changed, 7 insertions(+)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 0c48167..de3f6ec 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -233,6 +233,9 @@ class FieldBasic(Field):
     def get_default_value(self):
         return self.type_to_default_value[self.descriptor.type]
 
+    def is_floating_point(self):
+        return self.descriptor.type in (FieldDescriptorProto.TYPE_DOUBLE, FieldDescriptorProto.TYPE_FLOAT)
+
     def render_get_set(self, jinja_env):
         return self.render("FieldBasic_GetSet.h", jinja_environment=jinja_env)
 
diff --git a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
index 3ff4e42..81740f4 100644
--- a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
+++ b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
@@ -29,6 +29,9 @@ Postal address:
 #}
 {% if (field.optional or (field.oneof is not none)) %}
 if(has_{{field.get_name()}}() && (::EmbeddedProto::Error::NO_ERRORS == return_value))
+{% elif field.is_floating_point() %}
+{# A negative zero is not the default value, see the Protobuf documentation. #}
+if((({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) || std::signbit({{field.get_variable_name()}}.get())) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% else %}
 if(({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% endif %}
diff --git a/generator/EmbeddedProto/templates/Header.h b/generator/EmbeddedProto/templates/Header.h
index c61b30d..9e07d66 100644
--- a/generator/EmbeddedProto/templates/Header.h
+++ b/generator/EmbeddedProto/templates/Header.h
@@ -48,6 +48,7 @@
 #include <Errors.h>
 #include <Defines.h>
 #include <limits>
+#include <cmath>
 
 {% endif %}
 {% if proto_file.get_dependencies() is defined %}
-- 
2.43.0


From 3d2ca5a459e76796188cf471eba5c78e7b580c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 15/32] fix: generator: declare the template parameters of
 messages in a repeated field with a maximum length

---
 generator/EmbeddedProto/Field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index de3f6ec..ea4e500 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -536,8 +536,9 @@ class FieldRepeated(Field):
         self.actual_type.match_field_with_definitions(all_types_definitions)
 
     def register_template_parameters(self):
-        # If we do not have a max length defined register the template parameter.
-        if not self.MaxLength:
+        # If we do not have a max length defined register the template parameter. With a max length the type which is
+        # repeated may still have template parameters of its own.
+        if self.get_template_parameters():
             self.parent.register_child_with_template(self)
         return True
 
-- 
2.43.0


From 494b13afa338bdcaeb3a29f3a53aab098e2c669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:59 +0000
Subject: [PATCH 16/32] fix: generator: create a valid header guard for every
 file name

---
 generator/EmbeddedProto/ProtoFile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index ad61918..39b07da 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -30,6 +30,7 @@
 
 from .TypeDefinitions import *
 import os
+import re
 from toposort import CircularDependencyError, toposort_flatten
 from google.protobuf.descriptor_pb2 import FieldDescriptorProto
 
@@ -150,7 +151,9 @@ class ProtoFile:
         return result
 
     def get_header_guard(self):
-        return self.filename_with_folder.replace("/", "_").upper()
+        # Only characters allowed in a C++ identifier can be used, which also should not start with a number.
+        guard = re.sub(r"[^A-Z0-9]", "_", self.filename_with_folder.upper())
+        return "_" + guard if guard[0].isdigit() else guard
 
     # Obtain a dictionary with references to all nested enums and messages
     def get_all_nested_types(self):
-- 
2.43.0


From 88033d20d7d91a369c142a384cb0d86708ffb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:59 +0000
Subject: [PATCH 17/32] fix: generator: support enums with negative values

---
 generator/EmbeddedProto/TypeDefinitions.py      | 4 ++++
 generator/EmbeddedProto/templates/TypeDefEnum.h | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/TypeDefinitions.py b/generator/EmbeddedProto/TypeDefinitions.py
index 8a61af4..a546b3c 100644
--- a/generator/EmbeddedProto/TypeDefinitions.py
+++ b/generator/EmbeddedProto/TypeDefinitions.py
@@ -114,6 +114,10 @@ class EnumDefinition(TypeDefinition):
     def __init__(self, proto_descriptor, parent_scope):
         super().__init__(proto_descriptor, parent_scope, "TypeDefEnum.h")
 
+    # Protobuf enums can have negative values, only use a signed type for those that require it.
+    def get_underlying_type(self):
+        return "int32_t" if any(value.number < 0 for value in self.descriptor.value) else "uint32_t"
+
     # Loop through the values defined in the enum.
     def values(self):
         for value in self.descriptor.value:
diff --git a/generator/EmbeddedProto/templates/TypeDefEnum.h b/generator/EmbeddedProto/templates/TypeDefEnum.h
index d820389..4dd03c9 100644
--- a/generator/EmbeddedProto/templates/TypeDefEnum.h
+++ b/generator/EmbeddedProto/templates/TypeDefEnum.h
@@ -27,7 +27,7 @@ Postal address:
   1627 LE, Hoorn
   the Netherlands
 #}
-enum class {{ typedef.name }} : uint32_t
+enum class {{ typedef.name }} : {{ typedef.get_underlying_type() }}
 {
   {% for value in typedef.values() %}
   {{ value.name }} = {{ value.number }}{{ "," if not loop.last }}
-- 
2.43.0


From 479290cc024fd9cb1756c3de0bc3fec9cb26def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:03 +0000
Subject: [PATCH 18/32] fix: generator: sort definitions on complete names when
 looking for local dependencies

---
 generator/EmbeddedProto/ProtoFile.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 39b07da..d716c0e 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -39,7 +39,6 @@ from google.protobuf.descriptor_pb2 import FieldDescriptorProto
 
 def toposort_add_msg(msg, namespace, dependency_data):
 
-    local_definitions = []
     local_namespace = namespace + "." + msg.name
 
     dependencies = {namespace}
@@ -47,20 +46,18 @@ def toposort_add_msg(msg, namespace, dependency_data):
     for nested_msg in msg.nested_type:
         dependency_data = toposort_add_msg(nested_msg, local_namespace, dependency_data)
         full_msg_type = local_namespace + "." + nested_msg.name
-        local_definitions.append(full_msg_type)
         for dep in dependency_data[full_msg_type]:
             # Add requirements on other namespaces.
-            if not dep.startswith(local_namespace):
+            if (dep != local_namespace) and not dep.startswith(local_namespace + "."):
                 dependencies.add(dep)
 
     for nested_enum in msg.enum_type:
         full_enum_type = local_namespace + "." + nested_enum.name
         dependency_data[full_enum_type] = {local_namespace}
-        local_definitions.append(full_enum_type)
 
     for f in msg.field:
         if ((FieldDescriptorProto.TYPE_MESSAGE == f.type) or (FieldDescriptorProto.TYPE_ENUM == f.type)) \
-                and (f.type_name not in local_definitions):
+                and not f.type_name.startswith(local_namespace + "."):
             dependencies.add(f.type_name)
 
     # If we have any dependencies add them
-- 
2.43.0


From 0b78cacb483dac859430fa2f9b23c5b83060aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:03 +0000
Subject: [PATCH 19/32] fix: generator: do not confuse nested messages with top
 level messages when sorting

---
 generator/EmbeddedProto/ProtoFile.py       | 2 +-
 generator/EmbeddedProto/TypeDefinitions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index d716c0e..fa65ac0 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -117,7 +117,7 @@ class ProtoFile:
             # Based on the desired order assign each message definition an index.
             for index, msg_name in enumerate(message_order):
                 for msg_def in self.msg_definitions:
-                    if msg_def.name == msg_name.replace(my_scope + ".", ''):
+                    if msg_name == my_scope + "." + msg_def.name:
                         msg_def.sorted_index = index
                         break
 
diff --git a/generator/EmbeddedProto/TypeDefinitions.py b/generator/EmbeddedProto/TypeDefinitions.py
index a546b3c..745d423 100644
--- a/generator/EmbeddedProto/TypeDefinitions.py
+++ b/generator/EmbeddedProto/TypeDefinitions.py
@@ -185,7 +185,7 @@ class MessageDefinition(TypeDefinition):
 
         for index, msg_name in enumerate(message_order):
             for msg_def in self.nested_msg_definitions:
-                if msg_def.name == msg_name.replace(my_scope + ".", ''):
+                if msg_name == my_scope + "." + msg_def.name:
                     msg_def.sorted_index = index
                     break
 
-- 
2.43.0


From 8fdd21e215c4ef397480d210979d569aa093bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:06 +0000
Subject: [PATCH 20/32] fix: to_string: never write outside of the given
 character array when the text does not fit

---
 generator/EmbeddedProto/templates/TypeDefMsg.h |  9 +++------
 src/Defines.h                                  | 17 +++++++++++++++++
 src/FieldStringBytes.h                         | 15 +++++----------
 src/Fields.h                                   |  9 +++------
 src/RepeatedField.h                            |  9 +++------
 5 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 6c7b0c9..3d17184 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -289,8 +289,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
       }
 
@@ -319,8 +318,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        left_chars.advance(n_chars_used);
       }
 
       {% for field in typedef.fields %}
@@ -342,8 +340,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
 
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        left_chars.advance(n_chars_used);
       }
 
       return left_chars;
diff --git a/src/Defines.h b/src/Defines.h
index 6c86ed0..fc9017b 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -78,6 +78,23 @@ namespace EmbeddedProto
   struct array_view {
     T* data; //!< A pointer to the start of an array.
     uint32_t size; //!< The number of elements in the array.
+
+    //! Move the start of the view past the elements written by snprintf.
+    /*!
+        When the text did not fit, snprintf returns more than it has written. In that case the view is
+        left with just the null terminator.
+        \param[in] n_elements The return value of snprintf.
+    */
+    void advance(const int32_t n_elements)
+    {
+      if((0 < n_elements) && (0 < size))
+      {
+        const uint32_t n_written = (static_cast<uint32_t>(n_elements) < size) ? static_cast<uint32_t>(n_elements) 
+                                                                              : (size - 1);
+        data += n_written;
+        size -= n_written;
+      }
+    }
   };
 
   using string_view = array_view<char>;
diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 16a147e..238ea6d 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -362,8 +362,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -378,8 +377,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
@@ -442,8 +440,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -458,8 +455,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         uint32 field;
@@ -473,8 +469,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
diff --git a/src/Fields.h b/src/Fields.h
index 0390f08..f7de8ad 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -252,8 +252,7 @@ namespace EmbeddedProto
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
           if(0 < n_chars_used) {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -271,8 +270,7 @@ namespace EmbeddedProto
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         if constexpr((Field::FieldTypes::int32 == FIELDTYPE) ||
@@ -322,8 +320,7 @@ namespace EmbeddedProto
 
         if(0 < n_chars_used) {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 3234fa9..ed399b4 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -276,8 +276,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            left_chars.advance(n_chars_used);
           }
         }
 
@@ -285,8 +284,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         for(uint32_t i = 0; i < this->get_length(); ++i)
@@ -298,8 +296,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          left_chars.advance(n_chars_used);
         }
 
         return left_chars;
-- 
2.43.0


From 6f70252aab2e69f0ef808a09da03ee9427f892e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:06 +0000
Subject: [PATCH 21/32] fix: to_string: do not read past the end of a string
 which fills its field completely

---
 src/FieldStringBytes.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 238ea6d..5968752 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -368,11 +368,13 @@ namespace EmbeddedProto
 
         if(nullptr != name)
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%s\"", indent_level, " ", name, this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%.*s\"", indent_level, " ", name, 
+                                  static_cast<int>(this->get_length()), this->get_const());
         }
         else
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\"", indent_level, " ", this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%.*s\"", indent_level, " ", 
+                                  static_cast<int>(this->get_length()), this->get_const());
         }
         
         if(0 < n_chars_used) 
-- 
2.43.0


From ffe7bf6d2c2c133da90ad274e8a9694eb44b58e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:15 +0000
Subject: [PATCH 22/32] fix: generator: report a nested message holding its
 enclosing message as circular dependency

---
 generator/EmbeddedProto/ProtoFile.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index fa65ac0..598b5c9 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -56,6 +56,10 @@ def toposort_add_msg(msg, namespace, dependency_data):
         dependency_data[full_enum_type] = {local_namespace}
 
     for f in msg.field:
+        if (FieldDescriptorProto.TYPE_MESSAGE == f.type) and local_namespace.startswith(f.type_name + "."):
+            # The enclosing message is only complete after its nested definitions.
+            raise CircularDependencyError({local_namespace: {f.type_name}})
+
         if ((FieldDescriptorProto.TYPE_MESSAGE == f.type) or (FieldDescriptorProto.TYPE_ENUM == f.type)) \
                 and not f.type_name.startswith(local_namespace + "."):
             dependencies.add(f.type_name)
@@ -101,10 +105,10 @@ class ProtoFile:
         if self.descriptor.package:
             toposort_namespace = "." + self.descriptor.package
 
-        for msg in self.descriptor.message_type:
-            dependency_data = toposort_add_msg(msg, toposort_namespace, dependency_data)
-
         try:
+            for msg in self.descriptor.message_type:
+                dependency_data = toposort_add_msg(msg, toposort_namespace, dependency_data)
+
             # Sort the message in the order they should appear in the code.
             message_order = toposort_flatten(dependency_data)
 
-- 
2.43.0


From b5a4b928c30fab424770de73634c361ee18153fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:32 +0000
Subject: [PATCH 23/32] fix: generator: refer to definitions outside of the
 message by their complete name

---
 generator/EmbeddedProto/Field.py           | 4 ++++
 generator/EmbeddedProto/ProtoFile.py       | 4 ++--
 generator/EmbeddedProto/TypeDefinitions.py | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index ea4e500..cc24c48 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -143,6 +143,10 @@ class Field:
             else:
                 break
         reduced_scope = def_scope[start_index:]
+        if (0 == start_index) or def_scope[start_index - 1]["is_package"]:
+            # The definition is not enclosed by a message we are part of. Use its name starting at the global namespace,
+            # a relative name could refer to a package or nested definition with the same name.
+            reduced_scope = [{"name": "", "templates": [], "is_package": True}] + def_scope
         return reduced_scope
 
     def render(self, filename, jinja_environment):
diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 598b5c9..8c33541 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -89,10 +89,10 @@ class ProtoFile:
         if self.descriptor.package:
             package_list = self.descriptor.package.split(".")
             # The first element is the base scope.
-            self.scope = Scope(package_list[0], None)
+            self.scope = Scope(package_list[0], None, is_package=True)
             # Next add additional scopes nesting the previous one.
             for package in package_list[1:]:
-                self.scope = Scope(package, self.scope)
+                self.scope = Scope(package, self.scope, is_package=True)
 
         self.enum_definitions = [EnumDefinition(enum, self.scope) for enum in self.descriptor.enum_type]
         self.msg_definitions = [MessageDefinition(msg, self.scope) for msg in self.descriptor.message_type]
diff --git a/generator/EmbeddedProto/TypeDefinitions.py b/generator/EmbeddedProto/TypeDefinitions.py
index 745d423..1b0ea8a 100644
--- a/generator/EmbeddedProto/TypeDefinitions.py
+++ b/generator/EmbeddedProto/TypeDefinitions.py
@@ -36,10 +36,13 @@ import jinja2
 # This class deal with the scope in which definitions and field are located. It is used to keep track of template
 # parameters required for a given scope.
 class Scope:
-    def __init__(self, scope_name, parent):
+    def __init__(self, scope_name, parent, is_package=False):
         # The name of this scope/namespace
         self.name = scope_name
 
+        # True when this scope is (part of) a package, false for the scope of a definition.
+        self.is_package = is_package
+
         # A reference to the scope above this scope. If we are at the top level this will be None.
         self.parent = parent
 
@@ -86,7 +89,8 @@ class Scope:
         result = []
         if self.parent:
             result.extend(self.parent.get())
-        result.extend([{"name": self.name, "templates": self.get_template_parameters()}])
+        result.extend([{"name": self.name, "templates": self.get_template_parameters(),
+                        "is_package": self.is_package}])
         return result
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From c0e08cdc356a7392302e5b3a02c7275eccfccc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:56 +0000
Subject: [PATCH 24/32] fix: generator: refuse the use of a message which is
 nested in a message with template parameters

---
 generator/EmbeddedProto/Field.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index cc24c48..8dbb2a8 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -424,6 +424,12 @@ class FieldMessage(Field):
             scopes = self.get_reduced_scope()
             type_name = ""
             for scope in scopes:
+                if scope["templates"] and (scope is not scopes[-1]):
+                    raise Exception("You are trying to use a field with the type: \"" + self.descriptor.type_name +
+                                    "\". It is defined in a message which has template parameters for repeated, string "
+                                    "or byte fields. It is therefore not possible to use it outside of that message. "
+                                    "Try defining the message in the main scope or the one you are using it in.")
+
                 type_name += scope["name"] + "::"
             # Remove the last ::
             type_name = type_name[:-2]
-- 
2.43.0


From 58e134261f2f4dd400abc8b3b21655bb0f61e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:19 +0000
Subject: [PATCH 25/32] fix: compile with clang in C++11 mode, void is not a
 literal type

---
 src/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Defines.h b/src/Defines.h
index fc9017b..094e637 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -61,7 +61,7 @@ namespace EmbeddedProto
 #elif __cplusplus >= 201103L // C++11
 
   template<class T>
-  constexpr void destroy_at(T* p) 
+  inline void destroy_at(T* p) 
   {
     p->~T(); 
   }
-- 
2.43.0


From 87066ea2361d0c4901b089b77e44e71807ab6e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:43 +0000
Subject: [PATCH 26/32] fix: generator: refuse proto2 files, protoc leaves the
 syntax of these empty

---
 generator/EmbeddedProto/ProtoFile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 8c33541..55fa240 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -77,7 +77,9 @@ class ProtoFile:
     def __init__(self, proto_descriptor):
         self.descriptor = proto_descriptor
 
-        if "proto2" == proto_descriptor.syntax:
+        # Protoc does not fill in the syntax of proto2 files. The one such file which is used is google's descriptor file.
+        if ("proto3" != proto_descriptor.syntax) and \
+           ("google/protobuf/descriptor.proto" not in proto_descriptor.name):
             raise Exception(proto_descriptor.name + ": Sorry, proto2 is not supported, please use proto3.")
 
         # These file names are the ones used for creating the C++ files.
-- 
2.43.0


From f1b242edf63d298d6c87efeb595f3b24ceedecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:10 +0000
Subject: [PATCH 27/32] fix: generator: destroy oneof fields by their type, the
 name alone can refer to the message itself

---
 generator/EmbeddedProto/templates/FieldBytes_GetSet.h  | 2 +-
 generator/EmbeddedProto/templates/FieldMsg_GetSet.h    | 2 +-
 generator/EmbeddedProto/templates/FieldString_GetSet.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/EmbeddedProto/templates/FieldBytes_GetSet.h b/generator/EmbeddedProto/templates/FieldBytes_GetSet.h
index 59c155e..e5ced29 100644
--- a/generator/EmbeddedProto/templates/FieldBytes_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldBytes_GetSet.h
@@ -38,7 +38,7 @@ inline void clear_{{field.get_name()}}()
   if(FieldNumber::{{field.get_variable_id_name()}} == {{field.get_which_oneof()}})
   {
     {{field.get_which_oneof()}} = FieldNumber::NOT_SET;
-    {{field.get_variable_name()}}.~{{field.get_short_type()}}();
+    ::EmbeddedProto::destroy_at(&{{field.get_variable_name()}});
   }
 }
 inline {{field.get_type()}}& mutable_{{field.get_name()}}()
diff --git a/generator/EmbeddedProto/templates/FieldMsg_GetSet.h b/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
index 3ae06fa..9fc4fc9 100644
--- a/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
@@ -38,7 +38,7 @@ inline void clear_{{field.get_name()}}()
   if(FieldNumber::{{field.get_variable_id_name()}} == {{field.get_which_oneof()}})
   {
     {{field.get_which_oneof()}} = FieldNumber::NOT_SET;
-    {{field.get_variable_name()}}.~{{field.get_short_type()}}();
+    ::EmbeddedProto::destroy_at(&{{field.get_variable_name()}});
   }
 }
 inline void set_{{field.get_name()}}(const {{field.get_type()}}& value)
diff --git a/generator/EmbeddedProto/templates/FieldString_GetSet.h b/generator/EmbeddedProto/templates/FieldString_GetSet.h
index 0d3c3fc..8a9a126 100644
--- a/generator/EmbeddedProto/templates/FieldString_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldString_GetSet.h
@@ -38,7 +38,7 @@ inline void clear_{{field.get_name()}}()
   if(FieldNumber::{{field.get_variable_id_name()}} == {{field.get_which_oneof()}})
   {
     {{field.get_which_oneof()}} = FieldNumber::NOT_SET;
-    {{field.get_variable_name()}}.~{{field.get_short_type()}}();
+    ::EmbeddedProto::destroy_at(&{{field.get_variable_name()}});
   }
 }
 inline {{field.get_type()}}& mutable_{{field.get_name()}}()
-- 
2.43.0


From 6692e7de336a89c986e0e748e7f7b7c9b4087e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:51 +0000
Subject: [PATCH 28/32] fix: generator: add typename and template where a
 nested definition is a dependent name

---
 generator/EmbeddedProto/Field.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 8dbb2a8..ed1cda2 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -149,6 +149,11 @@ class Field:
             reduced_scope = [{"name": "", "templates": [], "is_package": True}] + def_scope
         return reduced_scope
 
+    # Returns true when the reduced scope is a dependent name in C++. This is the case for a definition inside of a nested
+    # message when both are part of an enclosing message with template parameters.
+    def is_dependent_scope(self, reduced_scope):
+        return (1 < len(reduced_scope)) and any(scope["templates"] for scope in self.definition.scope.get()[:-1])
+
     def render(self, filename, jinja_environment):
         template = jinja_environment.get_template(filename)
         rendered_str = template.render(field=self, environment=jinja_environment)
@@ -368,6 +373,9 @@ class FieldEnum(Field):
             # Remove the last ::
             type_name = type_name[:-2]
 
+            if self.is_dependent_scope(scopes):
+                type_name = "typename " + type_name
+
         return type_name
 
     def get_type(self):
@@ -435,6 +443,12 @@ class FieldMessage(Field):
             type_name = type_name[:-2]
 
             tmpl_param = self.get_template_parameters()
+            if self.is_dependent_scope(scopes):
+                if tmpl_param:
+                    # Explain to the compiler the last part is a template.
+                    type_name = type_name[:-len(self.definition.get_name())] + "template " + self.definition.get_name()
+                type_name = "typename " + type_name
+
             if tmpl_param:
                 type_name += "<"
                 for param in tmpl_param:
-- 
2.43.0


From b8bae1fcc7e839c35352f8749f93d6685e346835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:33 +0000
Subject: [PATCH 29/32] fix: generator: do not refer to a nested definition
 with the same name closer to the field

---
 generator/EmbeddedProto/Field.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index ed1cda2..c531b04 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -147,8 +147,20 @@ class Field:
             # The definition is not enclosed by a message we are part of. Use its name starting at the global namespace,
             # a relative name could refer to a package or nested definition with the same name.
             reduced_scope = [{"name": "", "templates": [], "is_package": True}] + def_scope
+        elif self.is_hidden(reduced_scope[0]["name"], len(parent_scope) - start_index):
+            # Start with the message we both are part of. Inside of it there is no need for its template parameters.
+            reduced_scope = [dict(def_scope[start_index - 1], templates=[])] + reduced_scope
         return reduced_scope
 
+    # Returns true when a definition in one of the given number of scopes closest to this field has the same name.
+    def is_hidden(self, name, number_of_scopes):
+        scope = self.parent.scope
+        for _ in range(number_of_scopes):
+            if any(name == child_scope.name for child_scope in scope.child_scopes):
+                return True
+            scope = scope.parent
+        return False
+
     # Returns true when the reduced scope is a dependent name in C++. This is the case for a definition inside of a nested
     # message when both are part of an enclosing message with template parameters.
     def is_dependent_scope(self, reduced_scope):
-- 
2.43.0


From a02e4366d525d998add1d5548fe235a9ff135d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:10 +0000
Subject: [PATCH 30/32] fix: FieldString: a c style string which is a part of
 the string itself can be assigned

---
 src/FieldStringBytes.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 5968752..2d535da 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -338,10 +338,8 @@ namespace EmbeddedProto
       void set(const char* const str)
       {
         if(nullptr != str) {
-          const uint32_t str_MAX_LENGTH = strnlen(str, MAX_LENGTH + 1);
-          this->set_length(str_MAX_LENGTH);
-          // If it is shorter then this object, the remainder is filled with null terminators.
-          strncpy(this->get(), str, MAX_LENGTH);
+          // Characters which do not fit are left out. The string is allowed to be a part of this object.
+          this->set(str, strnlen(str, MAX_LENGTH));
         }
         else {
           this->clear();
-- 
2.43.0


From dbf16a81f93599495a43b0c3f79d89ec53a35a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:10 +0000
Subject: [PATCH 31/32] fix: set of an enum in a oneof accepts the value of an
 other member of that oneof

---
 generator/EmbeddedProto/templates/FieldEnum_GetSet.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/templates/FieldEnum_GetSet.h b/generator/EmbeddedProto/templates/FieldEnum_GetSet.h
index cf693e5..dff7fa9 100644
--- a/generator/EmbeddedProto/templates/FieldEnum_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldEnum_GetSet.h
@@ -43,19 +43,21 @@ inline void clear_{{field.get_name()}}()
 }
 inline void set_{{field.get_name()}}(const {{field.get_type_as_defined()}}& value)
 {
+  const {{field.get_type_as_defined()}} new_value = value; // The value could be that of an other member of the oneof.
   if(FieldNumber::{{field.get_variable_id_name()}} != {{field.get_which_oneof()}})
   {
     init_{{field.get_oneof_name()}}(FieldNumber::{{field.get_variable_id_name()}});
   }
-  {{field.get_variable_name()}} = value;
+  {{field.get_variable_name()}} = new_value;
 }
 inline void set_{{field.get_name()}}(const {{field.get_type_as_defined()}}&& value)
 {
+  const {{field.get_type_as_defined()}} new_value = value; // The value could be that of an other member of the oneof.
   if(FieldNumber::{{field.get_variable_id_name()}} != {{field.get_which_oneof()}})
   {
     init_{{field.get_oneof_name()}}(FieldNumber::{{field.get_variable_id_name()}});
   }
-  {{field.get_variable_name()}} = value;
+  {{field.get_variable_name()}} = new_value;
 }
 {% elif field.optional %}
 inline bool has_{{field.get_name()}}() const
-- 
2.43.0


From 1108806326aa80e35b93ef312ae7b33c30cbc48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:11 +0000
Subject: [PATCH 32/32] fix: set of a scalar in a oneof accepts the value of an
 other member of that oneof

---
 generator/EmbeddedProto/templates/FieldBasic_GetSet.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/templates/FieldBasic_GetSet.h b/generator/EmbeddedProto/templates/FieldBasic_GetSet.h
index acdf087..0451952 100644
--- a/generator/EmbeddedProto/templates/FieldBasic_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldBasic_GetSet.h
@@ -43,19 +43,21 @@ inline void clear_{{field.get_name()}}()
 }
 inline void set_{{field.get_name()}}(const {{field.get_cstdint_type()}}& value)
 {
+  const {{field.get_cstdint_type()}} new_value = value; // The value could be that of an other member of the oneof.
   if(FieldNumber::{{field.get_variable_id_name()}} != {{field.get_which_oneof()}})
   {
     init_{{field.get_oneof_name()}}(FieldNumber::{{field.get_variable_id_name()}});
   }
-  {{field.get_variable_name()}} = value;
+  {{field.get_variable_name()}} = new_value;
 }
 inline void set_{{field.get_name()}}(const {{field.get_cstdint_type()}}&& value)
 {
+  const {{field.get_cstdint_type()}} new_value = value; // The value could be that of an other member of the oneof.
   if(FieldNumber::{{field.get_variable_id_name()}} != {{field.get_which_oneof()}})
   {
     init_{{field.get_oneof_name()}}(FieldNumber::{{field.get_variable_id_name()}});
   }
-  {{field.get_variable_name()}} = value;
+  {{field.get_variable_name()}} = new_value;
 }
 {% elif field.optional %}
 inline bool has_{{field.get_name()}}() const
-- 
2.43.0

