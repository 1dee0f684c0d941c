From 1b420f650c72d281c224f1c152972bec3170fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 01/43] fix: an option without a value ends the run with an
 error

ParseAndRemoveArguments neither advanced nor stopped when -I, -O, -R or -P
was the last argument, so the test program hung.
---
 TestingFramework/tfRegressionTest.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 5e95254..30e7c53 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -204,6 +204,14 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	
     for (int i = 1; i < argc;) 
       {      
+      // all of the options have a value
+      if (i == argc-1 && 
+          (!strcmp("-O", argv[i]) || !strcmp("-I", argv[i]) ||
+           !strcmp("-R", argv[i]) || !strcmp("-P", argv[i])))
+        {
+        throw std::runtime_error(std::string("missing value for option \"") + argv[i] + "\"!");
+        }
+
       // output filename option
       if (!strcmp("-O", argv[i])) 
         {
-- 
2.43.0


From 2791d663331ee281d73638fec11ff47d5836c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 02/43] fix: SearchPathList returns "" when the file is in no
 directory

It returned the last candidate, contrary to its documentation, so callers
never fell back to the name they were given.
---
 FileUtilities/PathName.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 457db61..690936a 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -294,7 +294,7 @@ namespace fileutil {
       if (fullFileName.IsFile())
 	return fullFileName;
     }
-    return fullFileName;
+    return PathName("");
   }
 
 
-- 
2.43.0


From 6c6d8a6a4fb1cb0dc1f6f7f28b222414d295d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 03/43] fix: escape the attribute values of a measurement

A name with &, <, or " made the recorded document unreadable.
---
 TestingFramework/tfMeasurement.cpp | 30 ++++++++++++++++++++++++------
 TestingFramework/tfMeasurement.h   |  7 +++++++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 0211c77..ccf65d7 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -140,6 +140,24 @@ namespace testutil {
     return result;
   }
 
+  std::string Measurement::ApplyAttributeEscapeSequences(const std::string &str) const {
+    if (!this->GetApplyEscapeSequences())
+      return str;
+    std::string escaped = this->ApplyEscapeSequences(str);
+    std::string result;
+    for (std::string::const_iterator i = escaped.begin(); i != escaped.end(); ++i) {
+      if (*i == '"')
+	result.append("&quot;");
+      else if (*i == '\t')
+	result.append("&#9;");
+      else if (*i == '\n')
+	result.append("&#10;");
+      else
+	result.push_back(*i);
+    }
+    return result;
+  }
+
 
   void Measurement::Print(std::ostream &os) const {
     this->PrintStartTag(os);
@@ -317,8 +335,8 @@ namespace testutil {
 
   void MeasurementFile::PrintStartTag(std::ostream &os) const {
       
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\">";
+    os << "<" << this->GetElementTypeName() << " name=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeName())
+       << "\" type=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeType()) << "\">";
   }
   
   
@@ -485,13 +503,13 @@ namespace testutil {
 
      
   void DataMeasurement::PrintStartTag(std::ostream &os) const {
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\"";
+    os << "<" << this->GetElementTypeName() << " name=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeName())
+       << "\" type=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeType()) << "\"";
 
     if (this->GetAttributeEncoding() != this->GetDefaultAttributeEncoding())
-      os << " encoding=\"" << this->GetAttributeEncoding() << "\"";
+      os << " encoding=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeEncoding()) << "\"";
     if (this->GetAttributeCompression() != this->GetDefaultAttributeCompression()) {
-      os << " compression=\"" << this->GetAttributeCompression() << "\"";
+      os << " compression=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeCompression()) << "\"";
     }
     os << ">";
   }
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 36fb2ec..2309f8d 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -98,6 +98,13 @@ namespace testutil {
     ///
     /// any occurence of &<> is replaces with &amp;,&lt;,&gt; respectfully
     virtual std::string ApplyEscapeSequences(const std::string &str) const;
+
+    /// \brief converts a string for the value of an attribute
+    ///
+    /// like ApplyEscapeSequences, but also replaces the charactors which
+    /// can not be in a quoted value. Does nothing when escape sequences
+    /// are not applied.
+    std::string ApplyAttributeEscapeSequences(const std::string &str) const;
     //virtual std::string ReplaceEscapeSequences(const std::string &str);
     
     
-- 
2.43.0


From 082918bd38c264336408f88b1ff8cac2a330ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 04/43] fix: a parse error inside of a measurement is reported,
 not asserted

Reading a truncated baseline aborted in ~XMLParseData instead of ending
the run with the parse error.
---
 TestingFramework/tfRegressionTest.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 30e7c53..196960d 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -618,7 +618,12 @@ namespace {
 
     struct XMLParseData {
       XMLParseData(void) : depth(0), m(0) {}
-      ~XMLParseData(void) { assert(!m);}
+      ~XMLParseData(void) {
+	// after a parse error there may be an unfinished measurement
+	delete m;
+	for (std::list<Measurement*>::iterator i = measurements.begin(); i != measurements.end(); ++i)
+	  delete *i;
+      }
       int depth;
       std::string data;
       Measurement *m;
-- 
2.43.0


From d5ab7f5f114f7a96af4a1ffcc1490dd104fb153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 05/43] fix: a baseline measurement without a type is not
 dereferenced as null

---
 TestingFramework/tfRegressionTest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 196960d..49bc78d 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -658,6 +658,10 @@ namespace {
 	      }
 	    }
 	  }
+	  if (!dm) {
+	    std::cerr << "XML: missing dart measurement type" << std::endl;
+	    dm = new PlainText;
+	  }
 	  pd.m = dm;
 		
 	  // get what we know, but we can't really set any of these yet
-- 
2.43.0


From c12fd8650d30dfd3900c3ec2bb46ac75f4421f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 06/43] fix: integer measurements keep the whole long

MeasurementNumericInteger takes a long, but the value went through an
int: 4294967297 was recorded, and compared, as 1.
---
 TestingFramework/tfMeasurement.cpp | 6 +++---
 TestingFramework/tfMeasurement.h   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index ccf65d7..e41725c 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -554,14 +554,14 @@ namespace testutil {
     visitor.Visit(*this);
   }
  
-  int IntegerNumeric::GetValue(void) const {
+  long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    int v;
+    long v;
     iss >> v;
     return v;    
   }
 
-  void IntegerNumeric::SetValue(int v) {
+  void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
     oss << v;
     this->SetContent(oss.str());
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 2309f8d..87f88f0 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -480,8 +480,8 @@ namespace testutil {
     // see Measurement
     virtual void AcceptVisitor(MeasurementVisitor &visitor);
     
-    int GetValue(void) const;
-    void SetValue(int v); 
+    long GetValue(void) const;
+    void SetValue(long v); 
 
      // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
-- 
2.43.0


From 4b53ec25c8bf73fe3e6c0a4dec6ae00a5985c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 07/43] fix: no overflow in the tolerant comparison of integers

The difference of a large positive and a large negative value wrapped to
a small one, and the values compared equal.
---
 TestingFramework/tfMeasurement.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 87f88f0..101b54e 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -487,7 +487,8 @@ namespace testutil {
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const IntegerNumeric *m = dynamic_cast<const IntegerNumeric*>(&rm);
       if (m)
-	return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
+	// the difference of two longs may overflow a long
+	return _IsEqualTolerant<long double>(this->GetValue(), m->GetValue(), tol);
       else 
 	return false;
     }
-- 
2.43.0


From 29c979e6db8becc7deaaf422cf6f1e7de46e3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 08/43] fix: nan, inf and other text are not numbers in a
 tolerant comparison

Such a content was read as 0 (or as the largest value), so nan matched 0
and -nan, and inf matched -inf.  Compare what is not a number as text.
---
 TestingFramework/tfMeasurement.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 101b54e..31744db 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <numeric>
 #include <limits>
+#include <sstream>
 
 namespace testutil {
   
@@ -446,6 +447,15 @@ namespace testutil {
 
   protected:
 
+    /// true if all of the content is a (finite) number
+    template <class T>
+    bool _IsNumber(void) const {
+      std::istringstream iss(this->GetContent());
+      T v;
+      char c;
+      return (iss >> v) && !(iss >> c);
+    }
+
     template <class T>
     static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
       tol = std::abs(tol);
@@ -486,7 +496,9 @@ namespace testutil {
      // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const IntegerNumeric *m = dynamic_cast<const IntegerNumeric*>(&rm);
-      if (m)
+      if (m && !(this->_IsNumber<long>() && m->_IsNumber<long>()))
+	return this->GetContent() == m->GetContent();
+      else if (m)
 	// the difference of two longs may overflow a long
 	return _IsEqualTolerant<long double>(this->GetValue(), m->GetValue(), tol);
       else 
@@ -525,7 +537,9 @@ namespace testutil {
     // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const FloatNumeric *m = dynamic_cast<const FloatNumeric*>(&rm);
-      if (m)
+      if (m && !(this->_IsNumber<float>() && m->_IsNumber<float>()))
+	return this->GetContent() == m->GetContent();
+      else if (m)
 	return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
       else 
 	return false;
@@ -561,7 +575,9 @@ namespace testutil {
      // see NumericData
      virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
        const DoubleNumeric *m = dynamic_cast<const DoubleNumeric*>(&rm);
-       if (m)
+       if (m && !(this->_IsNumber<double>() && m->_IsNumber<double>()))
+	return this->GetContent() == m->GetContent();
+      else if (m)
 	 return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
        else 
 	return false;
@@ -599,7 +615,9 @@ namespace testutil {
     // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const BooleanNumeric *m = dynamic_cast<const BooleanNumeric*>(&rm);
-       if (m)
+       if (m && !(this->_IsNumber<bool>() && m->_IsNumber<bool>()))
+	return this->GetContent() == m->GetContent();
+      else if (m)
 	 return this->GetValue() ==  m->GetValue();
        else 
 	 return false;
-- 
2.43.0


From e9c2ab3356b9fa8a0714177653b1148f8a0c03d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 09/43] fix: base64 lines are at most 72 characters

Only the first line was ended, since the line breaks were counted as
characters of a line, and nul characters were left at the end.
---
 TestingFramework/tfBase64.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index a608417..ff20bdd 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -84,7 +84,7 @@ namespace testutil {
   std::string Base64::Encode(const void *_input, size_t numBytes) {
     std::string::size_type numChars = ((numBytes+2)/3)*4;
     if (this->addNewLines)	  
-      numChars += numChars/72;
+      numChars += numChars ? (numChars-1)/72 : 0;
     std::string output(numChars, '\0');
     const unsigned char *input = static_cast<const unsigned char *>(_input);
 	
@@ -100,18 +100,22 @@ namespace testutil {
 	
       
     while(numBytes >= 3) {
+      // each full line is followed by another one
+      if (this->addNewLines && i%73 == 72)
+	output[i++] = '\n';
+
       output[i++] = base64chars[(input[j] >> 2)];
       output[i++] = base64chars[((input[j] << 4) & 0x30) | (input[j+1] >> 4)];
       output[i++] = base64chars[((input[j+1] << 2) & 0x3c) | (input[j+2] >> 6)];
       output[i++] = base64chars[(input[j+2] & 0x3f)];
       j += 3;
 	  
-      if (this->addNewLines && !(i%72))
-	output[i++] = '\n';
-	  
       numBytes -= 3;
     }
 	
+    if (this->addNewLines && numBytes && i%73 == 72)
+      output[i++] = '\n';
+
     // pad the output
     if (numBytes == 2) {	
       output[i++] = base64chars[(input[j] >> 2)];
-- 
2.43.0


From 4c06011ab6e953876007b41f4b6c9cf32286ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 10/43] fix: base64 padding is decoded and the number of bytes
 is right

Decode always threw on padding, which it only should when there are too few
characters before it, and IsBase64 counted the characters and not the bytes,
so the caller had uninitialised bytes at the end of the data.
---
 TestingFramework/tfBase64.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index ff20bdd..fd688c4 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -145,6 +145,9 @@ namespace testutil {
       if (base64bits[ptrdiff_t(byte)] <= 64) {
 	    
 	if (base64bits[ptrdiff_t(byte)] == PaddingBits) {
+	  // only the last two of four can be padding
+	  if (byteNumber < 2)
+	    return 0;
 	  padded = true;	      
 	  byteNumber++;
 	} else if (padded) {
@@ -153,8 +156,9 @@ namespace testutil {
 	} else {	    
 	  // have a byte with data..
 	  // look up in inverse table to get the bits
-	  byteNumber++;
-	  bytesRead++;
+	  // four 6-bits are three bytes
+	  if (byteNumber++ != 0)
+	    bytesRead++;
 	}
 
 	if (byteNumber == 4){
@@ -186,7 +190,6 @@ namespace testutil {
     size_t i = 0; // index into encode input
     size_t j = 0; // index to output
     int byteNumber = 0; // 0,1,3 indicates how to decode
-    size_t bytesRead = 0;
     char buffer[4];
     char byte;
     bool padded = false;
@@ -203,20 +206,20 @@ namespace testutil {
 	    padded = true;	 
 	    if (byteNumber == 2) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
-	      output[j++] = buffer[1] << 4;
 	    } else if (byteNumber == 3) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
 	      output[j++] = buffer[1] << 4 | buffer[2] >> 2;
-	      output[j++] = buffer[2] << 6;
 	    } else {
-	      std::runtime_error("invalid base64 string, improper termination");
+	      throw std::runtime_error("invalid base64 string, improper termination");
 	    }
 	  }
 	  byteNumber++;
 	      
 	  // padding finishedm we are done
-	  if (byteNumber == 4)
+	  if (byteNumber == 4) {
+	    byteNumber = 0;
 	    break;
+	  }
 
 	} else if (padded) {
 	  // the input was improperly terminated
@@ -225,7 +228,6 @@ namespace testutil {
 	  // have a byte with data..
 	  // look up in inverse table to get the bits
 	  buffer[byteNumber++] = base64bits[ptrdiff_t(byte)];	      
-	  bytesRead++;
 
 	  if (byteNumber == 4){
 	    // The basic idea is that the four bytes will get reconstituted
@@ -237,7 +239,6 @@ namespace testutil {
 	    output[j++] = buffer[1] << 4 | buffer[2] >> 2;
 	    output[j++] = buffer[2] << 6 | buffer[3];
 	    byteNumber = 0;
-	    bytesRead--;
 	  }
 	      
 	}
@@ -257,7 +258,7 @@ namespace testutil {
       throw std::runtime_error("invalid base64 string, unexpected end");
 	  
 
-    return bytesRead;
+    return j;
   }
 
 
-- 
2.43.0


From b4974fb371516ae48fa9cbb17f4500a062113656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 11/43] fix: base64 decoding of a character above 127 read
 outside of the table

---
 TestingFramework/tfBase64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index fd688c4..37c6057 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -136,7 +136,7 @@ namespace testutil {
     size_t i = 0;     // index into encode input
     int byteNumber = 0;  // 0,1,3 indicates how to decode
     size_t bytesRead = 0;
-    char byte;    
+    unsigned char byte;    
     bool padded = false;
 
     while (i < input.length()) {	  
@@ -191,7 +191,7 @@ namespace testutil {
     size_t j = 0; // index to output
     int byteNumber = 0; // 0,1,3 indicates how to decode
     char buffer[4];
-    char byte;
+    unsigned char byte;
     bool padded = false;
 	
 
-- 
2.43.0


From 357a074c343db3fe35882207ee39f70c3b2f20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 12/43] fix: a space is white space in base64

The table had the back space as white space and the space as invalid.
---
 TestingFramework/tfBase64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index 37c6057..ea555c1 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -278,9 +278,9 @@ namespace testutil {
       
   // table to convert base64 to 6 bits
   const unsigned char Base64::base64bits[256] = {
-    255,255,255,255,255,255,255,255,254,254,254,254,254,254,255,255, // 16
+    255,255,255,255,255,255,255,255,255,254,254,254,254,254,255,255, // 16
     255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255, // 32     
-    255,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
+    254,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
      52, 53, 54, 55, 56, 57, 58, 59, 60, 61,255,255,255, 64,255,255, // 64
     255,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14, // 80
      15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,255,255,255,255,255, // 96     
-- 
2.43.0


From 205bd243fd5a0011fb45bf8bdae4fa896969ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 13/43] fix: SetContentAsData sets the content also without an
 encoding

GetContent, and so what is printed or shown as difference, was the old
content: the difference report of a text file measurement had no lines of
the file.
---
 TestingFramework/tfMeasurement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index e41725c..ffe5bc6 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -468,7 +468,7 @@ namespace testutil {
     }
 
     if (this->GetAttributeEncoding() == "none") {
-      
+      this->SetContent(std::string(static_cast<const char*>(_data), size));
     } else if (this->GetAttributeEncoding() == "base64") {
       Base64 encoder;
       
-- 
2.43.0


From 789d38d3c785f14331d705e8e74c6c4cc0e4f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 14/43] fix: the cached data of a measurement depends on the
 encoding

After a change of the encoding (or compression) the data was still the one
of the old encoding.
---
 TestingFramework/tfMeasurement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index ffe5bc6..ca6d0e6 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -371,6 +371,7 @@ namespace testutil {
 
   void DataMeasurement::SetAttributeEncoding(const std::string &_encoding) {
     this->encoding = _encoding;
+    this->DeleteContentAsData();
   }
      
   const std::string &DataMeasurement::GetAttributeEncoding(void) const {
@@ -383,6 +384,7 @@ namespace testutil {
   
   void DataMeasurement::SetAttributeCompression(const std::string &_compression) {
     this->compression = _compression;
+    this->DeleteContentAsData();
   }
      
   const std::string &DataMeasurement::GetAttributeCompression(void)const {
-- 
2.43.0


From d148c5058d09d50290c7dddf3b16cf6b21dcf7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 15/43] fix: assignment of a measurement leaked the cached data

---
 TestingFramework/tfMeasurement.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index ca6d0e6..82ca0a9 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -357,8 +357,7 @@ namespace testutil {
     
   DataMeasurement &DataMeasurement::operator=(const DataMeasurement &m) {
     this->Measurement::operator=(m);
-    this->data = 0;
-    this->dataSize = 0;
+    this->DeleteContentAsData();
     this->encoding = m.encoding;
     this->compression = m.compression;
     return *this;
-- 
2.43.0


From 1f6115717cc94e73f137f5bbeb9187de2d7b4fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 16/43] fix: a run which did not complete, or did not match, is
 not a success

Main asked at the end again if there is a baseline.  When it is not there
any more the mismatches were not returned, and a run ended by an exception
returned success when -1 was the expected return.
---
 TestingFramework/tfRegressionTest.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 49bc78d..7ee65c3 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -301,6 +301,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	  
 
     int ret = -1; 
+    bool completed = false;
+    bool compareMode = false;
 
     std::set_unexpected(&_UnexpectedHandler);
     std::set_terminate(&_TerminateHandler);
@@ -314,6 +316,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
       this->BeginMeasurement();
 
+      compareMode = this->GetCompareMode();
       
       ret = this->Test(argc, argv);
 
@@ -321,6 +324,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       this->EndMeasurement();
 
       this->inputUnmatched--;
+      completed = true;
     } 
     CATCH_STDEXCEPTION(std::length_error)
       CATCH_STDEXCEPTION(std::domain_error)
@@ -341,7 +345,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       {
       return ret;
       }
-    else if ( this->GetCompareMode() )
+    else if ( compareMode || !completed )
       {
       return this->inputUnmatched;
       }
-- 
2.43.0


From f2293a661246c8a8de410026dc0d59811e447525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 17/43] fix: the directory of an entry of the root is the root

DirectoryName of "/a" was ".".
---
 FileUtilities/PathName.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 690936a..eb34baf 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -196,8 +196,11 @@ namespace fileutil {
 #else /// POSIX UNIX
     i = path.rfind('/');
 #endif
-    if (i == 0 || i == std::string::npos)
+    if (i == std::string::npos)
       return PathName(".");
+    // the root is the directory
+    if (i == 0)
+      return PathName("/");
     return PathName(path.substr(0, i));
   }
 
-- 
2.43.0


From 9e907eeb1c0ed924a9d8fcab1a18b1c63cf878a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 18/43] fix: a recording which could not be written is not a
 success

---
 TestingFramework/tfRegressionTest.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 7ee65c3..cc9c7fc 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -176,9 +176,11 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     
   void RegressionTest::EndMeasurement(void) {
     
-    if (!this->GetCompareMode()) 
+    if (!this->GetCompareMode()) {
       this->WriteXMLOutputEnd();
-    else
+      if (!this->GetOutStream())
+	throw std::runtime_error("unable to write to the output!");
+    } else
       this->ReadXMLInputFree();
 
     if (this->os) {
-- 
2.43.0


From 9b718f258f7dae102e14be49a514f542d7226442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 19/43] fix: an element inside of a measurement is a parse
 error, not asserted

---
 TestingFramework/tfRegressionTest.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index cc9c7fc..11f7b7d 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -623,13 +623,14 @@ namespace {
     
 
     struct XMLParseData {
-      XMLParseData(void) : depth(0), m(0) {}
+      XMLParseData(void) : parser(0), depth(0), m(0) {}
       ~XMLParseData(void) {
 	// after a parse error there may be an unfinished measurement
 	delete m;
 	for (std::list<Measurement*>::iterator i = measurements.begin(); i != measurements.end(); ++i)
 	  delete *i;
       }
+      XML_Parser parser;
       int depth;
       std::string data;
       Measurement *m;
@@ -640,8 +641,13 @@ namespace {
     void start(void *data, const char *el, const char **attr) {  
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
       
-      assert(!pd.m);
-      assert(pd.data.length() == 0);
+      if (pd.m) {
+	// error, a measurement only has text
+	std::cerr << "XML: unexpected element \"" << el << "\" in a measurement" << std::endl;
+	XML_StopParser(pd.parser, XML_FALSE);
+	return;
+      }
+      pd.data.resize(0);
 
       if (pd.depth == 0) {
 	if (el && std::string(el) != "output" ) {
@@ -771,6 +777,7 @@ namespace {
 
     XML_SetCharacterDataHandler(parser, data);
     
+    pd.parser = parser;
     XML_SetUserData(parser, &pd);
     
     while (true) {
-- 
2.43.0


From 82c38c511d5aaf784d137bd37888a2385357f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 20/43] fix: tfPipeToXML only measures the standard output

The "stdout" measurement also had the standard error of the command, at
places which depended on the timing of the two pipes.
---
 TestingFramework/tfPipeToXML.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfPipeToXML.cxx b/TestingFramework/tfPipeToXML.cxx
index 4e7a733..4bef60b 100644
--- a/TestingFramework/tfPipeToXML.cxx
+++ b/TestingFramework/tfPipeToXML.cxx
@@ -47,7 +47,10 @@ protected:
     int p;
     while((p = itksysProcess_WaitForData(kp, &data, &length, 0 )))
       {
-      outputString += std::string( data, length );
+      if (p == itksysProcess_Pipe_STDOUT)
+        outputString += std::string( data, length );
+      else
+        std::cerr.write( data, length );
       }
   
     itksysProcess_WaitForExit(kp, 0);
-- 
2.43.0


From 5840fc4cbdc7287b7ca35f5ccc27137d8f400795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 21/43] fix: images with different origins do not match

The origin of the baseline was compared with itself.
---
 itktf/itktfCompareVisitor.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index aca3b0d..6aae6f7 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -120,7 +120,7 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
   // todo change to some kind of fuzzy a test.
   ImageType::PointType baselineOrigin = baselineReader->GetOutput()->GetOrigin();
   ImageType::PointType testOrigin = testReader->GetOutput()->GetOrigin();
-  if ( baselineOrigin != baselineOrigin )
+  if ( baselineOrigin != testOrigin )
     {
     return 1;
     }
-- 
2.43.0


From 98239eacc6c1f81c48c7c8ebbb1aa01550f50137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 22/43] fix: the tolerated number of pixels was applied twice

CompareImage already returns the number of pixels above the tolerance, so
images with up to two times the tolerance of different pixels matched.
---
 itktf/itktfCompareVisitor.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index 6aae6f7..acb3ee0 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -136,7 +136,8 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
                                            radiusTolerance );
   
 
-  return (status > numberOfPixelsTolerance) ? 1 : 0;
+  // the pixels tolerated are not part of the status
+  return (status > 0) ? 1 : 0;
 }
 
 }
-- 
2.43.0


From 77a07833096e58f07c98ff31b74210eda188830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 23/43] fix: DifferenceImageFilter works with the threading of
 ITK 5

ThreadedGenerateData did not override the method of ITK (the type of the
thread id is unsigned), so every comparison of images threw "Subclass should
override this method".
---
 itktf/itktfDifferenceImageFilter.h   | 4 ++--
 itktf/itktfDifferenceImageFilter.txx | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index f8f550c..2411ce4 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -39,7 +39,7 @@ template<typename T>
 itk::VariableLengthVector<T>
 ZeroValue( const itk::VariableLengthVector<T> &v )
 {
-  return  itk::NumericTraits<itk::VariableLengthVector<T> >::Zero(v); 
+  return  itk::NumericTraits<itk::VariableLengthVector<T> >::ZeroValue(v); 
 }
 
 template<typename TPixelType>
@@ -160,7 +160,7 @@ protected:
    * \sa ImageToImageFilter::ThreadedGenerateData(),
    *     ImageToImageFilter::GenerateData()  */
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
-                            int threadId);
+                            ThreadIdType threadId);
 
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 79ecd92..aafd6c1 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -49,6 +49,9 @@ DifferenceImageFilter<TInputImage, TOutputImage>
   m_TotalMagnitude = NumericTraits<ScalarRealType>::Zero;
   m_NumberOfPixelsWithDifferences = 0;
   m_IgnoreBoundaryPixels = false;
+
+  // The statistics are kept by thread.
+  this->DynamicMultiThreadingOff();
 }
 
 //----------------------------------------------------------------------------
@@ -111,7 +114,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
 template <class TInputImage, class TOutputImage>
 void
 DifferenceImageFilter<TInputImage, TOutputImage>
-::ThreadedGenerateData(const OutputImageRegionType &threadRegion, int threadId)
+::ThreadedGenerateData(const OutputImageRegionType &threadRegion, ThreadIdType threadId)
 {
   typedef ConstNeighborhoodIterator<InputImageType>   SmartIterator;
   typedef ImageRegionConstIterator<InputImageType>    InputIterator;
@@ -197,7 +200,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
           // Store the minimum difference value in the output image.
           out.Set( static_cast<OutputPixelType>(minimumDifference) );
           // Update difference image statistics.
-          m_ThreadMagnitudeSum[threadId] += vcl_sqrt( minimumMagnitude2 );
+          m_ThreadMagnitudeSum[threadId] += std::sqrt( minimumMagnitude2 );
           m_ThreadNumberOfPixels[threadId]++;
           }
         else
-- 
2.43.0


From 824e92dd83f9a56b7bc95de1f9414d47efe7a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 24/43] fix: the difference of images with different spacing is
 reported

Since ITK 4 a filter throws when its inputs are not in the same physical
space, and this exception ended the run at the difference report.
---
 itktf/itktfDifferenceImageFilter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index 2411ce4..951b375 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -162,6 +162,10 @@ protected:
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
                             ThreadIdType threadId);
 
+  /** Images which are not in the same physical space can be compared
+   * too, pixel by pixel. */
+  void VerifyInputInformation() const {}
+
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
  
-- 
2.43.0


From fbd1debef68f7976aac62a49148d2500f7b08ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 25/43] fix: the images of a difference report are written with
 ITK 5

Since ITK 4 the extraction of a slice needs the strategy for the directions.
---
 itktf/itktfDifferenceVisitor.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index 80d378a..21546b5 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -110,6 +110,7 @@ int ImageThing( typename ImageType::ConstPointer image,
   typename ExtractType::Pointer extract = ExtractType::New();
   extract->SetInput( image );
   extract->SetExtractionRegion( region );
+  extract->SetDirectionCollapseToSubmatrix();
 
   typename RescaleType::Pointer rescale = RescaleType::New();
   rescale->SetOutputMinimum( itk::NumericTraits<OutputPixelType>::NonpositiveMin() );
-- 
2.43.0


From 1cb4ee934d51429d4e91a5d2f58f5ed89f00973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 26/43] fix: a host name with two dashes made the recorded
 document unreadable

---
 TestingFramework/tfRegressionTest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 11f7b7d..fe12229 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -609,6 +609,10 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 #else
     gethostname(hostname, 256);
 #endif
+    // a comment can not have two dashes in a row
+    for (char *c = hostname; *c; ++c)
+      if (c[0] == '-' && c[1] == '-')
+	c[1] = '_';
     this->GetOutStream() << "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" << std::endl;
     this->GetOutStream() << "<!-- created on "  << hostname << " at " <<ctime(&t) << " -->" << std::endl;
     this->GetOutStream() << "<output>" << std::endl;
-- 
2.43.0


From 6d4e844a39fc692261a3dc2c857281302e52a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 27/43] fix: appending to the root gave two separators

---
 FileUtilities/PathName.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index eb34baf..d19d1d3 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -146,7 +146,10 @@ namespace fileutil {
       while (i && path[i] == '/')
 	--i;
       path.erase(i + 1, path.length() - i - 1);
-      this->SetPathName(path + '/' + f.GetNativePathName());      
+      // the root is its own separator
+      if (path != "/")
+	path += '/';
+      this->SetPathName(path + f.GetNativePathName());      
     
 #endif
     }
-- 
2.43.0


From cc277657582bc25359e8119eba458dedc03a06ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 28/43] fix: line differences were not minimal when one side is
 short

---
 TestingFramework/tfDiff.cpp | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 88bb8a7..aaea958 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -122,15 +122,20 @@ namespace testutil {
       
  
       fdiag[fmid] = xbegin;
+      fdiag[fmid-1] = fdiag[fmid+1] = xbegin - 1;
       bdiag[bmid] = xend;
+      bdiag[bmid-1] = bdiag[bmid+1] = xend + 1;
       
       // length it the length(depth) of the current search
       for (ptrdiff_t length = 0; ; ++length) {
 	
 
-	// foward search of edit space one iteration on valid diagonals 
-	if (fmin >= dmin) fdiag[fmin-1] = xbegin - 1;
-	if (fmax <= dmax) fdiag[fmax+1] = xbegin - 1;
+	// foward search of edit space one iteration on valid diagonals,
+	// these alternate between even and odd
+	if (length > 0) {
+	  if (fmin > dmin) fdiag[--fmin-1] = xbegin - 1; else ++fmin;
+	  if (fmax < dmax) fdiag[++fmax+1] = xbegin - 1; else --fmax;
+	}
 
 	// k is the diagonal
 	for (ptrdiff_t k = fmax; k >= fmin; k-=2) {
@@ -155,15 +160,13 @@ namespace testutil {
 	  }	  
 	  
 	}
-	// increment, after the end need to make sure we still
-	// alternate even and odd, but that must be done later
-	if (fmin > dmin) --fmin;
-	if (fmax < dmax) ++fmax;
-	
 	
-	// backwards search of edit space one iteration on valid diagonals 
-	if (bmin >= dmin) bdiag[bmin-1] = xend + 1;
-	if (bmax <= dmax) bdiag[bmax+1] = xend + 1;
+	// backwards search of edit space one iteration on valid diagonals,
+	// these alternate between even and odd
+	if (length > 0) {
+	  if (bmin > dmin) bdiag[--bmin-1] = xend + 1; else ++bmin;
+	  if (bmax < dmax) bdiag[++bmax+1] = xend + 1; else --bmax;
+	}
 	for (ptrdiff_t k = bmax; k >= bmin; k-=2) {
 	  ptrdiff_t x, y;	  
 	  const ptrdiff_t lo = bdiag[k-1], hi = bdiag[k+1];
@@ -187,18 +190,6 @@ namespace testutil {
 	  
 	}
 
-	// after the end need to make sure we still
-	// alternate even and odd, hear only for the 1x1 case
-	if (fmin < dmin) fmin += 2;
-	if (fmax > dmax) fmax -= 2;
-	
-	
-	// increment, after the end need to make sure we still
-	// alternate even and odd
-	bmin > dmin ? --bmin : ++bmin;
-	bmax < dmax ? ++bmax : --bmax;
-
-	
       }
       
     }
-- 
2.43.0


From 49ff8661629e9bfde661fb236c119a7bf4808cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 29/43] fix: a run which could not be completed returned the 0
 of the test as success

With an expected return value other than 0, a test which returned 0 made
Main return 0 even if the end of the recording could not be written.
---
 TestingFramework/tfRegressionTest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index fe12229..97a37ef 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -343,7 +343,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       catch(...) {
 	std::cerr << "unknow exception" << std::endl;
       }
-    if ( ret != this->GetExpectedReturn() )
+    if ( ret != this->GetExpectedReturn() && ( completed || ret != EXIT_SUCCESS ) )
       {
       return ret;
       }
-- 
2.43.0


From d06526869c7a010fc6e79cd1b91edca54812a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 30/43] fix: the tolerant comparison of floats and doubles
 overflowed

The difference of two large numbers with different signs, or the product of a
large number and the tolerance, was infinite, so that numbers within the
tolerance differed and others outside of it matched.
---
 TestingFramework/tfMeasurement.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 31744db..d89ce06 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -457,9 +457,10 @@ namespace testutil {
     }
 
     template <class T>
-    static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
+    static bool _IsEqualTolerant(const T &lm, const T &rm, long double tol) {
       tol = std::abs(tol);
-      T temp = std::abs(lm - rm);     
+      // the difference and the products may overflow T
+      long double temp = std::abs(static_cast<long double>(lm) - rm);
       return  temp <= tol*std::abs(lm) ||
 	temp <= tol*std::abs(rm) || 
 	(std::abs(lm) < std::numeric_limits<T>::epsilon() &&
-- 
2.43.0


From bd0bd0ea71aafb771a08d90026df31b4b6640e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 31/43] fix: a measurement file which is a directory aborted
 the run instead of being a mismatch

---
 TestingFramework/tfMeasurement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 82ca0a9..d0319af 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -34,6 +34,7 @@
 #include "tfMeasurement.h"
 #include "tfMeasurementVisitor.h"
 #include "tfBase64.h"
+#include "FileUtilities/PathName.h"
 #include <ios>
 #include <fstream>
 #include <stdexcept>
@@ -258,7 +259,8 @@ namespace testutil {
     std::ifstream::pos_type l, m, size;
     char *buff;
 
-    if (!is) {
+    // a directory may be opened, but it has no content
+    if (!is || fileutil::PathName(this->GetFileName()).IsDirectory()) {
       std::cerr << "error opening file \"" << this->GetFileName() << "\"." << std::endl;
       return new PlainText();
     }
-- 
2.43.0


From b35b84452d803cc29ba8220d9e25c1da3783038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 32/43] fix: the difference report of an image which cannot be
 read ended the run

---
 itktf/itktfDifferenceVisitor.cxx | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index 21546b5..783ada3 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -58,11 +58,20 @@ void DifferenceVisitor::Visit(testutil::MeasurementFile &m)
   if ( m.GetAttributeType() == "image/itk" &&
        (baseline = dynamic_cast<testutil::MeasurementFile*>(this->_baseline)) )
     {
-    DifferenceTestImage( m, 
-                         *baseline, 
-                         m_IntensityTolerance,
-                         m_NumberOfPixelsTolerance, 
-                         m_RadiusTolerance ) ;
+    try
+      {
+      DifferenceTestImage( m, 
+                           *baseline, 
+                           m_IntensityTolerance,
+                           m_NumberOfPixelsTolerance, 
+                           m_RadiusTolerance ) ;
+      }
+    catch ( const std::exception &e )
+      {
+      // an image which can not be read is a difference, it must not end the run
+      std::cerr << "Exception detected while computing the difference: " << e.what() << std::endl;
+      testutil::DifferenceVisitor::Visit(m);
+      }
     }
   else 
     {
-- 
2.43.0


From a5636fcdec4d9eb732280d6db3e44055157ad303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 33/43] fix: the command of tfPipeToXML was written into the
 recording, without escapes

---
 TestingFramework/tfPipeToXML.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfPipeToXML.cxx b/TestingFramework/tfPipeToXML.cxx
index 4bef60b..07f802d 100644
--- a/TestingFramework/tfPipeToXML.cxx
+++ b/TestingFramework/tfPipeToXML.cxx
@@ -18,17 +18,17 @@ protected:
   {
     // we expect the input arguments to be tfPipeToXML cmdtorun arg1
     // ... argN
-    std::cout << "Redirecting output from: \"";
+    std::cerr << "Redirecting output from: \"";
     const char **cmd = new const char*[argc];
     for ( int i = 1; i < argc; ++i ) 
       {
       cmd[i-1] = argv[i];
       if (i != 1)
-        std::cout << " ";
-      std::cout << argv[i];      
+        std::cerr << " ";
+      std::cerr << argv[i];      
       }
     cmd[argc - 1] = 0;
-    std::cout << "\"" << std::endl;
+    std::cerr << "\"" << std::endl;
 
     
     char* data = 0;
-- 
2.43.0


From d4726077d78c03f1fdf56aafa6eb8e5f6454d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 34/43] fix: a measurement which matched was answered like one
 which did not

---
 TestingFramework/tfRegressionTest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 97a37ef..75a8356 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -426,13 +426,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
         if ( vis->GetResult() )
           {
           // the results matched
-          ret = 1;
+          ret = 0;
           this->MatchedMeasurement(test);
           }
         else 
           {
           // the results differ
-          ret = 0;
+          ret = 1;
           this->DifferenceMeasurement(test, *baseline);
           }
         
-- 
2.43.0


From 772c221578bb01cfe697e55c8a7ab883a0c4014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 35/43] fix: a filter called its watcher when the watcher was
 gone

---
 itktf/itktfFilterWatcher.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/itktf/itktfFilterWatcher.h b/itktf/itktfFilterWatcher.h
index 0976e9a..90c6870 100644
--- a/itktf/itktfFilterWatcher.h
+++ b/itktf/itktfFilterWatcher.h
@@ -20,6 +20,7 @@
 #include "itkCommand.h"
 #include "itkProcessObject.h"
 #include <time.h>
+#include <vector>
 
 namespace itk 
 {
@@ -55,14 +56,21 @@ public:
     iterationFilterCommand->SetCallbackFunction(this, &FilterWatcher::ShowIteration);
     abortFilterCommand->SetCallbackFunction(this, &FilterWatcher::ShowAbort);
 
-    m_Process->AddObserver(itk::StartEvent(), startFilterCommand);
-    m_Process->AddObserver(itk::EndEvent(), endFilterCommand);
-    m_Process->AddObserver(itk::ProgressEvent(), progressFilterCommand);
-    m_Process->AddObserver(itk::IterationEvent(), iterationFilterCommand);
-    m_Process->AddObserver(itk::AbortEvent(), abortFilterCommand);
+    m_Tags.push_back( m_Process->AddObserver(itk::StartEvent(), startFilterCommand) );
+    m_Tags.push_back( m_Process->AddObserver(itk::EndEvent(), endFilterCommand) );
+    m_Tags.push_back( m_Process->AddObserver(itk::ProgressEvent(), progressFilterCommand) );
+    m_Tags.push_back( m_Process->AddObserver(itk::IterationEvent(), iterationFilterCommand) );
+    m_Tags.push_back( m_Process->AddObserver(itk::AbortEvent(), abortFilterCommand) );
   }
 
-  virtual ~FilterWatcher() {}
+  virtual ~FilterWatcher()
+  {
+    // the process may outlive its watcher
+    for (unsigned int i = 0; i < m_Tags.size(); ++i)
+      {
+      m_Process->RemoveObserver( m_Tags[i] );
+      }
+  }
 
   virtual void ShowProgress() {}
 
@@ -105,6 +113,9 @@ protected:
 
 private:
   FilterWatcher(); // Purposely not implemented
+  FilterWatcher(const FilterWatcher &); // Purposely not implemented
+
+  std::vector<unsigned long> m_Tags;
 };
 
 }
-- 
2.43.0


From 3e485139dde60c2d05b741996b9e1f18d00719af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 36/43] fix: a carriage return in a recording was read back as
 a line feed

---
 TestingFramework/tfMeasurement.cpp | 6 ++++--
 TestingFramework/tfMeasurement.h   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index d0319af..867b577 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -121,7 +121,7 @@ namespace testutil {
   std::string Measurement::ApplyEscapeSequences(const std::string &str) const {
       
     std::string::size_type j = 0;
-    std::string::size_type i = str.find_first_of("&<>");
+    std::string::size_type i = str.find_first_of("&<>\r");
     if (i == str.length())
       return str;
     std::string result;
@@ -133,9 +133,11 @@ namespace testutil {
 	result.append("&lt;");
       else if (str[i] == '>')
 	result.append("&gt;"); 
+      else // a reader takes it for the end of a line
+	result.append("&#13;");
 	
       j = i + 1;
-      i = str.find_first_of("&<>", j);
+      i = str.find_first_of("&<>\r", j);
     }      
     result.append(str,j,i-j);
     return result;
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index d89ce06..aac4099 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -98,6 +98,7 @@ namespace testutil {
     /// \brief converts all needed charactors to escape sequences
     ///
     /// any occurence of &<> is replaces with &amp;,&lt;,&gt; respectfully
+    /// and a carriage return with &#13;
     virtual std::string ApplyEscapeSequences(const std::string &str) const;
 
     /// \brief converts a string for the value of an attribute
-- 
2.43.0


From 6d236eb61dcb05909468ec28111390cde7dee100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 37/43] fix: data set with an unknown encoding was kept
 although the content was not set

---
 TestingFramework/tfMeasurement.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 867b577..a3ff6c6 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -481,6 +481,7 @@ namespace testutil {
       
     } else { 
       std::cerr << "unsupported encoding \"" << this->GetAttributeEncoding() << "\" used." << std::endl;
+      this->DeleteContentAsData();
     
     }
 
-- 
2.43.0


From e904cf13cc4a23274bd146cd6c6fd45a6b67b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 38/43] fix: lines with the same hash value could end the line
 difference with a crash

---
 TestingFramework/tfDiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index aaea958..55d8aa0 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -424,7 +424,7 @@ namespace testutil {
 	  
 	for (size_t j = hindex; j < 2; ++j) {
 	  hash_table::iterator i = hash[j].begin();
-	  while(!hash[j].empty()  && i->first == v.first) {
+	  while(i != hash[j].end()  && i->first == v.first) {
 	    if (!str[hindex]->substr(data.lines[hindex][v.second].lindex, data.lines[hindex][v.second].length).compare(
 		str[j]->substr(data.lines[j][i->second].lindex, data.lines[j][i->second].length))) {	      
 	      data.vec[j][i->second] = id;	
-- 
2.43.0


From fdd6e4e06253ed2be7f06d5ed13b1a305253dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 39/43] fix: the line difference read before and behind its
 arrays

---
 TestingFramework/tfDiff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 55d8aa0..1b4e8d8 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -209,8 +209,8 @@ namespace testutil {
       assert(xend - xbegin != 0 || yend - ybegin != 0); 
       
       // can't begin or end with a 'snake'
-      assert(xvec[xbegin] != yvec[ybegin] || xend - xbegin == 0 || yend - ybegin == 0);
-      assert(xvec[xend-1] != yvec[yend-1] || xend - xbegin == 0 || yend - ybegin == 0);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xbegin] != yvec[ybegin]);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xend-1] != yvec[yend-1]);
 
       
       if (xend - xbegin == 0) {
@@ -232,7 +232,7 @@ namespace testutil {
 
 	  // eat what 'snake we can in the middle
 	  // and get the operations for the two halves
-	  if (xvec[part.xmid-1] == yvec[part.ymid-1] && part.xmid != xbegin && part.ymid != ybegin) {
+	  if (part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid-1] == yvec[part.ymid-1]) {
 	    l2 = GenerateEditList(part.xmid, xend, part.ymid, yend, data);
 	    // eat it
 	    while(part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid - 1] == yvec[part.ymid-1])
-- 
2.43.0


From 16698518d79e93ae385f8599db472ad765cef67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 40/43] fix: a run of a test object was affected by the runs
 before

---
 TestingFramework/tfRegressionTest.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 75a8356..839281d 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -311,7 +311,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
 
     try {
-      this->inputUnmatched++;
+      // only the mismatches of this run are counted
+      this->inputUnmatched = 1;
       
       this->ParseAndRemoveArguments(argc, argv);
       
@@ -343,6 +344,17 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       catch(...) {
 	std::cerr << "unknow exception" << std::endl;
       }
+
+    if ( !completed ) 
+      {
+      // what the aborted run has left is not for the next one
+      this->ReadXMLInputFree();
+      delete this->os;
+      this->os = 0;
+      delete this->is;
+      this->is = 0;
+      }
+
     if ( ret != this->GetExpectedReturn() && ( completed || ret != EXIT_SUCCESS ) )
       {
       return ret;
-- 
2.43.0


From eacb6ab6374bcbbacc217e6d53dfdfe02a287966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 41/43] fix: names generated in a second run of a test object
 were different

---
 itktf/itktfRegression.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itktf/itktfRegression.cxx b/itktf/itktfRegression.cxx
index e05320f..913b637 100644
--- a/itktf/itktfRegression.cxx
+++ b/itktf/itktfRegression.cxx
@@ -83,6 +83,7 @@ std::string Regression::GenerateFileName( std::string fileExtension, std::string
 
 int Regression::Main( int argc, char *argv[] ) 
 {
+  m_FileNameCount = 0;
   m_ArgumentList.clear();
   for ( int i = 0; i < argc; ++i) 
     {
-- 
2.43.0


From bff2ef1f1f2026c6c8a345d9d984c7b022092ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 42/43] fix: the current directory was garbage if its name was
 long or it was removed

---
 FileUtilities/FileUtilities.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/FileUtilities/FileUtilities.cpp b/FileUtilities/FileUtilities.cpp
index 85ce031..3791fe6 100644
--- a/FileUtilities/FileUtilities.cpp
+++ b/FileUtilities/FileUtilities.cpp
@@ -46,6 +46,8 @@
 #endif
 
 #include <stdexcept>
+#include <vector>
+#include <errno.h>
 #include <stdlib.h>
 #include <iostream> 
 
@@ -97,9 +99,14 @@ namespace fileutil {
     struct stat s;
 
     if (!stat(".", &s)) {
-      char currentName[MAX_PATH];
-      getcwd(currentName, MAX_PATH);
-      result = currentName;
+      std::vector<char> currentName(MAX_PATH);
+      // the name may be longer
+      while (!getcwd(&currentName[0], currentName.size())) {
+	if (errno != ERANGE)
+	  return PathName(result);
+	currentName.resize(currentName.size()*2);
+      }
+      result = &currentName[0];
     }
     return PathName(result);
   }
-- 
2.43.0


From 2c71c0af44809fc4e5355d57e4dce7b3f72425ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 43/43] fix: an output file which may not be written aborts the
 run

---
 TestingFramework/tfRegressionTest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 839281d..9893aed 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -223,8 +223,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
           fileutil::PathName pn(outfname);
 	  if (pn.IsFile() && !pn.IsWritable()) 
             {
-	    std::cerr << "unable to write to file \"" << outfname << "\"!" << std::endl;
-	    outfname = 0;
+            throw std::runtime_error(std::string("unable to write to output file \"") + outfname + "\"!");
             }
 
 	  for (int j = i; j+2 < argc; ++j)
-- 
2.43.0

