From a9e8d21b9060a00484721ddfde36c5049dca5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 001/138] fix: refuse damaged HRIT headers with an exception

A bare throw outside a handler terminates the process, so any damaged
header record killed the program instead of reporting an error.  Record
lengths are also checked against the header area, so that a damaged length
cannot lead to reading past it, and the ancillary text is terminated.
---
 msat/hrit/MSG_header.cpp                | 39 ++++++++++++++++---------
 msat/hrit/MSG_header_ancillary_text.cpp |  8 +++--
 msat/hrit/MSG_header_image_datafunc.cpp |  5 ++--
 3 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 898b67c..c1444b8 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -28,6 +28,8 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <memory>
+#include <stdexcept>
 
 #include <msat/hrit/MSG_header.h>
 
@@ -81,36 +83,39 @@ void MSG_header::read_from( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Primary Header." << std::endl;
-    throw;
+    throw std::runtime_error("cannot read the HRIT primary header");
   }
   if (primary_header[0] != MSG_HEADER_PRIMARY)
   {
     std::cerr << "Error: First header type value is not primary." << std::endl;
-    throw;
+    throw std::runtime_error("first HRIT header is not a primary header");
   }
   if (get_ui2(primary_header+1) != MSG_HEADER_PRIMARY_LEN)
   {
     std::cerr << "Error: Primary Header Length mismatch." << std::endl;
     std::cerr << "Header Length: " << get_ui2(primary_header+1) << std::endl;
-    throw;
+    throw std::runtime_error("HRIT primary header has an invalid length");
   }
   f_typecode = (t_enum_MSG_filetype) *(primary_header+3);
   total_header_length = get_ui4(primary_header+4);
   data_field_length   = get_ui8(primary_header+8);
   filesize = data_field_length/8+total_header_length;
+  if (total_header_length < MSG_HEADER_PRIMARY_LEN)
+    throw std::runtime_error("HRIT total header length is invalid");
   size_t hsize = total_header_length-MSG_HEADER_PRIMARY_LEN;
-  hbuff = new unsigned char_1[hsize];
+  std::unique_ptr<unsigned char_1[]> hmem(new unsigned char_1[hsize]);
+  hbuff = hmem.get();
   if (!hbuff)
   {
     std::cerr << "Memory allocation error in MSG_header." << std::endl
               << "Requested allocation of " << hsize << " bytes." << std::endl;
-    throw;
+    throw std::runtime_error("cannot allocate memory for the HRIT header");
   }
   in.read((char_1 *) hbuff, hsize);
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Header body" << std::endl;
-    throw;
+    throw std::runtime_error("cannot read the HRIT header records");
   }
   unsigned char_1 *pnt = hbuff;
   size_t left = hsize;
@@ -118,6 +123,9 @@ void MSG_header::read_from( std::ifstream &in )
   size_t hqlen = 0;
   while (left)
   {
+    // No header record may end past the header area
+    if (left < 3 || get_ui2(pnt+1) < 3 || get_ui2(pnt+1) > left)
+      throw std::runtime_error("HRIT header record has an invalid length");
     switch(*pnt)
     {
       case MSG_HEADER_IMAGE_STRUCTURE:
@@ -125,7 +133,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Structure Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT image structure header has an invalid length");
         }
         image_structure = new MSG_header_image_struct;
         image_structure->read_from(pnt);
@@ -137,7 +145,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Navigation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT image navigation header has an invalid length");
         }
         image_navigation = new MSG_header_image_navig;
         image_navigation->read_from(pnt);
@@ -156,7 +164,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Annotation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT annotation header has an invalid length");
         }
         annotation = new MSG_header_annotation;
         annotation->read_from(pnt);
@@ -168,7 +176,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Timestamp Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT timestamp header has an invalid length");
         }
         timestamp = new MSG_header_timestamp;
         timestamp->read_from(pnt);
@@ -187,7 +195,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Key Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT key header has an invalid length");
         }
         key = new MSG_header_key;
         key->read_from(pnt);
@@ -199,7 +207,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Segment Id Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT segment identification header has an invalid length");
         }
         segment_id = new MSG_header_segment_id;
         segment_id->read_from(pnt);
@@ -207,6 +215,10 @@ void MSG_header::read_from( std::ifstream &in )
         left = left - MSG_SEGMENT_ID_LEN;
         break;
       case MSG_HEADER_IMAGE_SEGMENT_LINE_QUALITY:
+        if (!image_structure ||
+            get_ui2(pnt+1) < 3 + (size_t) image_structure->number_of_lines
+                             * MSG_SEGMENT_QUALITY_RECORD_LEN)
+          throw std::runtime_error("HRIT line quality header has an invalid length");
         segment_quality = new MSG_header_segment_quality;
         segment_quality->read_from(pnt, image_structure->number_of_lines);
         hqlen = get_ui2(pnt+1);
@@ -216,11 +228,10 @@ void MSG_header::read_from( std::ifstream &in )
       default:
         std::cerr << "Unknown header type: " << (uint_2) *pnt << std::endl;
         std::cerr << "Unparsed " << left << " bytes." << std::endl;
-        throw;
+        throw std::runtime_error("unknown HRIT header type");
         break;
       }
    }
-   delete [ ] hbuff;
    return;
 }
 
diff --git a/msat/hrit/MSG_header_ancillary_text.cpp b/msat/hrit/MSG_header_ancillary_text.cpp
index 70e5ef9..d092cc2 100644
--- a/msat/hrit/MSG_header_ancillary_text.cpp
+++ b/msat/hrit/MSG_header_ancillary_text.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 
 #include <msat/hrit/MSG_header_ancillary_text.h>
 
@@ -56,16 +57,17 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
   {
     std::cerr << "Error: Data Function Header length invalid." << std::endl;
     std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRIT ancillary text header");
   }
-  ancillary_text = new char_1[h_length];
+  ancillary_text = new char_1[h_length+1];
   if (!ancillary_text)
   {
     std::cerr << "Memory error in MSG_header_ancillary_text." << std::endl;
     std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRIT ancillary text header");
   }
   memcpy(ancillary_text, buff+3, h_length);
+  ancillary_text[h_length] = 0;
   return;
 }
 
diff --git a/msat/hrit/MSG_header_image_datafunc.cpp b/msat/hrit/MSG_header_image_datafunc.cpp
index f351e92..4211a23 100644
--- a/msat/hrit/MSG_header_image_datafunc.cpp
+++ b/msat/hrit/MSG_header_image_datafunc.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_header_image_datafunc.h>
 
 MSG_header_image_datafunc::MSG_header_image_datafunc( )
@@ -49,14 +50,14 @@ void MSG_header_image_datafunc::read_from( unsigned const char_1 *buff )
   {
     std::cerr << "Error: Data Function Header length invalid." << std::endl;
     std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRIT data function header");
   }
   char_1 *tmpchar = new char_1[h_length];
   if (!tmpchar)
   {
     std::cerr << "Memory error in MSG_header_image_datafunc." << std::endl;
     std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRIT data function header");
   }
   memcpy(tmpchar, buff+3, h_length-1);
   tmpchar[h_length-1] = 0;
-- 
2.43.0


From 88630c14177589e699ca3c63ebe1be865b0ec1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 002/138] fix: parse the projection name of HRIT navigation
 headers safely

The 32 character name was searched and scanned without a terminator, and
every polar stereographic name crashed: the longitude was looked for before
the comma which had just been replaced with a terminator.
---
 msat/hrit/MSG_header_image_navig.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_header_image_navig.cpp b/msat/hrit/MSG_header_image_navig.cpp
index 93805dc..555afff 100644
--- a/msat/hrit/MSG_header_image_navig.cpp
+++ b/msat/hrit/MSG_header_image_navig.cpp
@@ -46,8 +46,10 @@ MSG_header_image_navig::~MSG_header_image_navig( ) { }
 
 void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
 {
-  char_1 projection_name[32];
+  char_1 projection_name[33];
   memcpy(projection_name, buff+3, 32);
+  projection_name[32] = 0;
+  subsatellite_longitude = projection_plane = projection_longitude = 0;
   column_scaling_factor = get_i4(buff+35);
   CFAC                  = column_scaling_factor;
   line_scaling_factor   = get_i4(buff+39);
@@ -70,10 +72,14 @@ void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
     projection_name[5] = 0;
     pname = projection_name;
     tmp = strchr(projection_name+6, ',');
-    *(tmp) = 0;
+    if (tmp != NULL) *tmp++ = 0;
     sscanf(projection_name+6, "%f", &projection_plane);
-    *(strchr(tmp, ')')) = 0;
-    sscanf(tmp, "%f", &projection_longitude);
+    if (tmp != NULL)
+    {
+      char_1 *pnt = strchr(tmp, ')');
+      if (pnt != NULL) *pnt = 0;
+      sscanf(tmp, "%f", &projection_longitude);
+    }
   }
   else if (projection_name[0] == 'P' && projection_name[1] == 'S')
     pname = "PSD";
-- 
2.43.0


From a6bb1ad76669f7cea3517319e2d29a8e56d2ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 003/138] fix: refuse damaged HRIT data fields with an
 exception

Bare throw statements outside a handler terminated the program, data fields
shorter than what is decoded from them were read past their end, and
absent header records were dereferenced.
---
 msat/hrit/MSG_data.cpp            | 63 +++++++++++++++++++++++--------
 msat/hrit/MSG_data_SGS_header.cpp |  4 +-
 msat/hrit/MSG_data_gts.cpp        |  3 +-
 msat/hrit/MSG_data_key.cpp        |  9 +++--
 msat/hrit/MSG_data_text.cpp       |  6 ++-
 5 files changed, 60 insertions(+), 25 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 49a5d39..1642cef 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -28,9 +28,22 @@
 //-----------------------------------------------------------------------------
 
 #include <string>
+#include <cstring>
 #include <fstream>
+#include <stdexcept>
 #include <msat/hrit/MSG_data.h>
 
+// Bytes of a level 1.5 prologue and epilogue data field that are decoded
+#define MSG_PROLOGUE_DATA_LEN 425461
+#define MSG_EPILOGUE_DATA_LEN 380325
+
+// Owns the data field while it is being decoded
+struct MSG_data_buffer {
+  unsigned char_1 *&buff;
+  MSG_data_buffer( unsigned char_1 *&b ) : buff(b) { }
+  ~MSG_data_buffer( ) { delete [ ] buff; }
+};
+
 std::ostream& operator<< ( std::ostream& os, MSG_data_level_15_header &h )
 {
   os << h.sat_status
@@ -64,7 +77,7 @@ MSG_data::MSG_data( )
   sdsprologue  = 0;
 }
 
-MSG_data::MSG_data( std::ifstream &in, MSG_header &header)
+MSG_data::MSG_data( std::ifstream &in, MSG_header &header) : MSG_data( )
 {
   read_from(in, header);
 }
@@ -85,12 +98,15 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
   size_t dsize;
   size_t dpos;
   unsigned char_1 *dbuff = 0;
+  MSG_data_buffer dbuff_owner(dbuff);
   unsigned char_1 *dpnt = 0;
 
   typecode = header.f_typecode;
   switch (typecode)
   {
     case MSG_FILE_IMAGE_DATA:
+      if (!header.image_structure)
+        throw std::runtime_error("HRIT image file without image structure header");
       image = new MSG_data_image;
 
       dsize = header.data_field_length / 8;
@@ -99,18 +115,20 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("cannot read the HRIT data field");
       }
 
       if (header.image_structure->compression_flag == MSG_NO_COMPRESSION)
       {
-        image->len = dsize;
+        image->len = dsize / sizeof(MSG_SAMPLE);
         image->data = (MSG_SAMPLE *) ( new char[dsize] );
         memcpy(image->data, dbuff, dsize);
       }
       else
       {
         MSG_data_image_encoded encoded;
+        if (!header.segment_id)
+          throw std::runtime_error("HRIT image file without segment identification header");
         encoded.data   = dbuff;
         encoded.len    = dsize;
         encoded.bpp    = header.image_structure->number_of_bits_per_pixel;
@@ -129,12 +147,14 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("cannot read the HRIT data field");
       }
       gts_message = new MSG_data_gts;
       dpos = gts_message->read_from(dbuff, dsize);
       {
         std::string outname;
+        if (!header.annotation)
+          throw std::runtime_error("HRIT message without annotation header");
         outname = header.annotation->annotation;
         outname += ".bin";
         gts_message->dump(outname);
@@ -150,7 +170,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("cannot read the HRIT data field");
       }
       text_message = new MSG_data_text;
       dpos = text_message->read_from(dbuff, dsize);
@@ -166,7 +186,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("cannot read the HRIT data field");
       }
       key_message = new MSG_data_key;
       dpos = key_message->read_from(dbuff, dsize);
@@ -181,12 +201,16 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("cannot read the HRIT data field");
       }
 
+      if (!header.annotation)
+        throw std::runtime_error("HRIT prologue without annotation header");
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
 
+        if (dsize < MSG_PROLOGUE_DATA_LEN)
+          throw std::runtime_error("HRIT prologue is too short");
         prologue = new MSG_data_level_15_header;
 
 
@@ -215,6 +239,9 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
                header.annotation->product_id_1.find("METOP")
                       != std::string::npos)
       {
+        // Common header, then a product header that starts with its length
+        if (dsize < 54 || get_ui4(dbuff+50) < 8 || get_ui4(dbuff+50) > dsize-46)
+          throw std::runtime_error("HRIT foreign satellite prologue is too short");
         dpnt = dbuff;
         sdsprologue = new MSG_data_SGS_header;
         dpos = sdsprologue->read_from(dpnt);
@@ -237,12 +264,16 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("cannot read the HRIT data field");
       }
 
+      if (!header.annotation)
+        throw std::runtime_error("HRIT epilogue without annotation header");
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
 
+        if (dsize < MSG_EPILOGUE_DATA_LEN)
+          throw std::runtime_error("HRIT epilogue is too short");
         epilogue = new MSG_data_level_15_trailer;
 
         dpnt = dbuff+1;
@@ -274,16 +305,18 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("cannot read the HRIT data field");
       }
       {
         std::ofstream os;
         std::string outname;
+        if (!header.annotation)
+          throw std::runtime_error("HRIT message without annotation header");
         outname = header.annotation->annotation;
         outname += ".bin";
         os.open(outname.c_str( ));
         if (!os.good())
-          throw;
+          throw std::runtime_error("cannot write " + outname);
         os.write((char *) dbuff, (size_t) dsize);
         os.close( );
       }
@@ -291,12 +324,10 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     default:
       std::cerr << "Unknown MSG file type " << header.f_typecode << std::endl;
-      throw;
+      throw std::runtime_error("unknown HRIT file type");
       break;
   }
 
-  if (dbuff) delete [ ] dbuff;
-
   return;
 }
 
@@ -308,7 +339,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_data &h )
   switch (h.typecode)
   {
     case MSG_FILE_IMAGE_DATA:
-      os << *(h.image);
+      if (h.image) os << *(h.image);
       break;
     case MSG_FILE_GTS_MESSAGE:
       os << *(h.gts_message);
@@ -320,10 +351,10 @@ std::ostream& operator<< ( std::ostream& os, MSG_data &h )
       os << *(h.key_message);
       break;
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
-      os << *(h.prologue);
+      if (h.prologue) os << *(h.prologue);
       break;
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
-      os << *(h.epilogue);
+      if (h.epilogue) os << *(h.epilogue);
       break;
     case MSG_FILE_DCP_MESSAGE:
       os << "DCP message." << std::endl;
diff --git a/msat/hrit/MSG_data_SGS_header.cpp b/msat/hrit/MSG_data_SGS_header.cpp
index b462f12..5945bee 100644
--- a/msat/hrit/MSG_data_SGS_header.cpp
+++ b/msat/hrit/MSG_data_SGS_header.cpp
@@ -75,8 +75,8 @@ std::ostream& operator<< (std::ostream& os, MSG_SGSCommonHeader &h)
      << std::endl
      << "Proc. Instance Id   : " << (uint_2) h.SGSProcessingInstanceId
      << std::endl
-     << "Base Algorithm      : " << h.BaseAlgorithmVersion << std::endl
-     << "Product Algorithm   : " << h.ProductAlgorithmVersion << std::endl;
+     << "Base Algorithm      : " << std::string(h.BaseAlgorithmVersion, strnlen(h.BaseAlgorithmVersion, 16)) << std::endl
+     << "Product Algorithm   : " << std::string(h.ProductAlgorithmVersion, strnlen(h.ProductAlgorithmVersion, 16)) << std::endl;
   return os;
 }
 
diff --git a/msat/hrit/MSG_data_gts.cpp b/msat/hrit/MSG_data_gts.cpp
index 6c276f4..3fd0a9d 100644
--- a/msat/hrit/MSG_data_gts.cpp
+++ b/msat/hrit/MSG_data_gts.cpp
@@ -29,6 +29,7 @@
 
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_gts.h>
 
 MSG_data_gts::MSG_data_gts( )
@@ -53,7 +54,7 @@ size_t MSG_data_gts::read_from( unsigned const char_1 *buff, size_t datasize )
   if (msize == 0 || msize > (MSG_MAX_GTS_MESSAGE_SIZE*MSG_MAX_GTS_MESSAGES))
   {
     std::cerr << "Invalid GTS message(s) size." << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRIT GTS message size");
   }
 
   mbuff = new unsigned char_1[msize];
diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 2671d73..b8e9222 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_key.h>
 
 MSG_data_key::MSG_data_key( )
@@ -52,7 +53,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   if (nkeys > MSG_MAX_NUMBER_KEY_MESSAGES || nkeys <= 0)
   {
     std::cerr << "Key message number or size invalid." << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRIT key message size");
   }
 
   keys = new MSG_encryption_key[nkeys];
@@ -60,8 +61,8 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   for (int i = 0; i < nkeys; i ++)
   {
     keys[i].User_Station_number = get_ui2(pnt);
-    keys[i].Key_Number = *(pnt+1);
-    memcpy(keys[i].Public_key, pnt+2, 192);
+    keys[i].Key_Number = *(pnt+2);
+    memcpy(keys[i].Public_key, pnt+3, 192);
     keys[i].Public_Key_CRC = get_ui2(pnt+195);
     pnt = pnt + MSG_KEY_MESSAGE_LEN;
   }
@@ -70,7 +71,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
 
 std::ostream& operator<< ( std::ostream& os, MSG_encryption_key &k )
 {
-  std::string keystr = k.Public_key;
+  std::string keystr(k.Public_key, strnlen(k.Public_key, 192));
   os << "User Station Number : " << (uint_2) k.User_Station_number
      << std::endl
      << "Key Number          : " << (uint_2) k.Key_Number << std::endl
diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index 8ee630d..f69b035 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -29,6 +29,7 @@
 
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_text.h>
 
 MSG_data_text::MSG_data_text( )
@@ -53,7 +54,7 @@ size_t MSG_data_text::read_from( unsigned const char_1 *buff, size_t datasize )
   if (tsize == 0)
   {
     std::cerr << "Invalid TEXT message size." << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRIT text message size");
   }
 
   tbuff = new unsigned char_1[tsize];
@@ -91,7 +92,8 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_text &t )
      << "-           MSG ALPHANUMERIC TEXT FILE               -" << std::endl
      << "------------------------------------------------------" << std::endl;
   os << "****************" << std::endl;
-  os << t.tbuff << std::endl;
+  os.write((char_1 *) t.tbuff, t.tsize);
+  os << std::endl;
   os << "****************" << std::endl;
   return os;
 }
-- 
2.43.0


From 5c71a8ca7d769137fa8233562b845a10e0b84b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 004/138] fix: report unusable xRIT image sets as errors
 instead of crashing

Missing header records, a missing prologue or epilogue, segments shorter
than their header says, channels and samples outside the calibration tables
and HRV lines placed outside the raster were dereferenced or written out of
bounds, and exceptions crossed GDAL's C interface.
---
 gdal/xrit/dataset.cpp    |  5 +++++
 gdal/xrit/rasterband.cpp | 24 ++++++++++++++++++++++--
 gdal/xrit/rasterband.h   |  2 ++
 gdal/xrit/xrit.cpp       |  6 +++++-
 msat/xrit/dataaccess.cpp | 15 ++++++++++++---
 5 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/gdal/xrit/dataset.cpp b/gdal/xrit/dataset.cpp
index f013e7a..d1b0dfd 100644
--- a/gdal/xrit/dataset.cpp
+++ b/gdal/xrit/dataset.cpp
@@ -36,6 +36,11 @@ bool XRITDataset::init()
     MSG_data EPI_data;
     MSG_header header;
     da.scan(fa, PRO_data, EPI_data, header);
+    if (!PRO_data.prologue || !EPI_data.epilogue)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "MSG prologue or epilogue not found");
+        return false;
+    }
 
     if (da.hrv)
     {
diff --git a/gdal/xrit/rasterband.cpp b/gdal/xrit/rasterband.cpp
index c1a2cb0..ae8effa 100644
--- a/gdal/xrit/rasterband.cpp
+++ b/gdal/xrit/rasterband.cpp
@@ -33,6 +33,11 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
     /// Channel
     channel_id = header.segment_id->spectral_channel_id;
     char buf[25];
+    if (channel_id < 1 || channel_id > 12)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "Unsupported channel %d", channel_id);
+        return false;
+    }
     snprintf(buf, 25, "%d", channel_id);
     SetMetadataItem(MD_MSAT_CHANNEL_ID, buf, MD_DOMAIN_MSAT);
     const char* channelName = facts::channelName(xds->spacecraft_id, channel_id);
@@ -48,6 +53,12 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
     if (!linear)
     {
         int bpp = header.image_structure->number_of_bits_per_pixel;
+        if (bpp > 16)
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "Unsupported bits per pixel: %d", bpp);
+            return false;
+        }
+        calibration_size = 1 << bpp;
         calibration = PRO_data.prologue->radiometric_proc.get_calibration(channel_id, bpp);
     }
 
@@ -69,7 +80,7 @@ const char* XRITRasterBand::GetUnitType()
 }
 
 CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
-{
+try {
     if (xblock != 0)
     {
         CPLError(CE_Failure, CPLE_AppDefined, "Invalid block number");
@@ -77,6 +88,11 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
     }
 
     size_t linestart = xds->da.line_start(yblock);
+    if (linestart > (size_t)nBlockXSize || xds->da.columns > nBlockXSize - linestart)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "Image line %d does not fit in the raster", yblock);
+        return CE_Failure;
+    }
 
     if (linear)
     {
@@ -90,7 +106,7 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
             fbuf[i] = 0.0;
         for (size_t i = 0; i < xds->da.columns; ++i)
         {
-            float res = calibration[rawbuf[i]];
+            float res = rawbuf[i] < calibration_size ? calibration[rawbuf[i]] : 0;
             if (res < 0 || isnan(res)) res = 0;
             fbuf[linestart + i] = res;
         }
@@ -99,6 +115,10 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
     }
 
     return CE_None;
+} catch (std::exception& e) {
+    // GDAL cannot propagate exceptions
+    CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+    return CE_Failure;
 }
 
 double XRITRasterBand::GetOffset(int* pbSuccess)
diff --git a/gdal/xrit/rasterband.h b/gdal/xrit/rasterband.h
index 4c1ad79..dce28f3 100644
--- a/gdal/xrit/rasterband.h
+++ b/gdal/xrit/rasterband.h
@@ -18,6 +18,8 @@ public:
     bool linear;
     int channel_id;
     float* calibration;
+    /// Number of elements in calibration
+    size_t calibration_size = 0;
 
     XRITRasterBand(XRITDataset* ds, int idx);
     ~XRITRasterBand();
diff --git a/gdal/xrit/xrit.cpp b/gdal/xrit/xrit.cpp
index 76620d8..62ca47b 100644
--- a/gdal/xrit/xrit.cpp
+++ b/gdal/xrit/xrit.cpp
@@ -16,7 +16,7 @@ namespace xrit {
 GDALDataset* XRITOpen(GDALOpenInfo* info);
 
 GDALDataset* XRITOpen(GDALOpenInfo* info)
-{
+try {
     // Se if it looks like a XRIT filename
     if (!msat::xrit::isValid(info->pszFilename))
         return NULL;
@@ -75,6 +75,10 @@ GDALDataset* XRITOpen(GDALOpenInfo* info)
         if (!ds->init()) return NULL;
         return msat::gdal::add_extras(ds.release(), info);
     }
+} catch (std::exception& e) {
+    // GDAL cannot propagate exceptions
+    CPLError(CE_Failure, CPLE_OpenFailed, "%s", e.what());
+    return NULL;
 }
 
 }
diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 57889c4..1f91074 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -24,6 +24,7 @@
 #include <msat/xrit/fileaccess.h>
 #include <msat/hrit/MSG_HRIT.h>
 #include <stdexcept>
+#include <memory>
 
 using namespace std;
 
@@ -101,6 +102,8 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
     {
         //p.activity("Scanning segment " + *i);
         read_file(i, header);
+        if (!header.segment_id || !header.image_structure || !header.image_navigation)
+            throw std::runtime_error(i + ": not an image segment");
         if (header.segment_id->data_field_format == MSG_NO_FORMAT)
             throw std::runtime_error(i + ": product dumped in binary format");
 
@@ -115,9 +118,12 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
 
     // Read common info just once from a random segment
     scanSegment(header);
+    if (seglines == 0 || columns == 0) throw std::runtime_error("image segments have no pixels");
 
     if (hrv)
     {
+        if (!epi.epilogue)
+            throw std::runtime_error("HRV coverage not found in the epilogue");
         MSG_ActualL15CoverageHRV& cov = epi.epilogue->product_stats.ActualL15CoverageHRV;
         LowerEastColumnActual = cov.LowerEastColumnActual;
         LowerNorthLineActual = cov.LowerNorthLineActual;
@@ -180,9 +186,12 @@ MSG_data* DataAccess::segment(size_t idx) const
         // ProgressTask p("Reading segment " + segnames[idx]);
         MSG_header header;
         scache new_scache;
-        new_scache.segment = new MSG_data;
+        std::unique_ptr<MSG_data> new_segment(new MSG_data);
         new_scache.segno = idx;
-        read_file(segnames[idx].c_str(), header, *new_scache.segment);
+        read_file(segnames[idx].c_str(), header, *new_segment);
+        if (!new_segment->image)
+            throw std::runtime_error(segnames[idx] + ": not an image segment");
+        new_scache.segment = new_segment.release();
 
         // Put it in the front
         segcache.push_front(new_scache);
@@ -232,7 +241,7 @@ void DataAccess::line_read(size_t line, MSG_SAMPLE* buf) const
         d = segment(segnum);
     }
 
-    if (d == nullptr)
+    if (d == nullptr || (segline + 1) * columns > d->image->len)
     {
         bzero(buf, columns * sizeof(MSG_SAMPLE));
         return;
-- 
2.43.0


From cb8c25beb0c511d35d8dbec44b2239d42dfb4690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 005/138] fix: read every HRIT geometric resampling function

---
 msat/hrit/MSG_data_GeometricProc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_GeometricProc.cpp b/msat/hrit/MSG_data_GeometricProc.cpp
index b5876f9..7944a72 100644
--- a/msat/hrit/MSG_data_GeometricProc.cpp
+++ b/msat/hrit/MSG_data_GeometricProc.cpp
@@ -126,7 +126,7 @@ size_t MSG_data_GeometricProc::read_from( unsigned const char_1 *buff)
       AtmosphericModel[i][j] = get_r4(buff+position+(i*360+j)*4);
   position += 12*360*4;
   for (int i = 0; i < 12; i ++)
-    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position);
+    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position+i);
   position += 12;
   return position;
 }
-- 
2.43.0


From 5d62cdee3faf7a5dc99e2bbe326eda838f0dbf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 006/138] fix: read the spin rate of HRIT landmark observations
 at its offset

---
 msat/hrit/MSG_data_NavigExtrResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_NavigExtrResult.cpp b/msat/hrit/MSG_data_NavigExtrResult.cpp
index ee26189..dcf99b7 100644
--- a/msat/hrit/MSG_data_NavigExtrResult.cpp
+++ b/msat/hrit/MSG_data_NavigExtrResult.cpp
@@ -124,7 +124,7 @@ size_t MSG_LandmarkObservation::read_from( unsigned const char_1 *buff )
   Beta = get_r8(buff+34);
   BetaConfidence = get_r8(buff+42);
   (void) ObservationTime.read_from(buff+50);
-  SpinRate = get_r8(buff+60);
+  SpinRate = get_r8(buff+58);
   AlphaDeviation = get_r8(buff+66);
   BetaDeviation = get_r8(buff+74);
   return 82;
-- 
2.43.0


From 1b0d9af44c51b2fd4c440b64bbe414c045d45a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 007/138] fix: do not divide by zero printing sparse HRIT
 histograms

---
 msat/hrit/MSG_data_RadiometricQuality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_RadiometricQuality.cpp b/msat/hrit/MSG_data_RadiometricQuality.cpp
index 7a54295..504bf67 100644
--- a/msat/hrit/MSG_data_RadiometricQuality.cpp
+++ b/msat/hrit/MSG_data_RadiometricQuality.cpp
@@ -512,6 +512,6 @@ uint_4 maxistogram(uint_4 *istogram, int_4 len)
   uint_4 maxval = 0;
   for (int i = 0; i < len; i ++)
     if (maxval < istogram[i]) maxval = istogram[i];
-  if (maxval == 0) return 1;
+  if (maxval < 76) return 1;
   return maxval/76;
 }
-- 
2.43.0


From 87f80ab7b5c1dafe8c5b80b11aa5b03a2160f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 008/138] fix: unpack the 42 DCR values of the HRIT black body
 data

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 10 ++++++++--
 msat/hrit/MSG_data_RadiometricProc.h   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 7c31d29..d4fcbdb 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -361,7 +361,13 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   for (int i = 0; i < 15; i ++)
     PUBias[i] = get_ui2(buff+position+i*2);
   position += 15*2;
-  memcpy(DCRValues, buff, 63);
+  // 42 values of 12 bits each
+  for (int i = 0; i < 42; i ++)
+  {
+    unsigned const char_1 *dcr = buff+position+i*12/8;
+    DCRValues[i].Value = i % 2 ? (dcr[0] & 0x0f) << 8 | dcr[1]
+                               : dcr[0] << 4 | dcr[1] >> 4;
+  }
   position += 63;
   XDeepSpaceWindowPosition = (t_enum_MSG_DeepSpace_Window_Position)
                              *(buff+position);
@@ -442,7 +448,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_BlackBodyDataUsed &b )
   for (int i = 0; i < 15; i ++)
     os << "PU Bias " << std::setw(2) << std::setfill('0') << i+1
        << "         : " << b.PUBias[i] << std::endl;
-  for (int i = 0; i < 12; i ++)
+  for (int i = 0; i < 42; i ++)
     os << "DCR Values " << std::setw(2) << std::setfill('0') << i+1
        << "       : "
        << std::setw(3) << std::setfill('0') << std::hex << b.DCRValues[i].Value
diff --git a/msat/hrit/MSG_data_RadiometricProc.h b/msat/hrit/MSG_data_RadiometricProc.h
index 72af7b7..9f3c204 100644
--- a/msat/hrit/MSG_data_RadiometricProc.h
+++ b/msat/hrit/MSG_data_RadiometricProc.h
@@ -131,7 +131,7 @@ class MSG_BlackBodyDataUsed {
     uint_2                               PUGain[42];
     uint_2                               PUOffset[27];
     uint_2                               PUBias[15];
-    t_MSG_DCR_Value                      DCRValues[12];
+    t_MSG_DCR_Value                      DCRValues[42];
     t_enum_MSG_DeepSpace_Window_Position XDeepSpaceWindowPosition;
     uint_2                               FCUNominalColdFocalPlaneTemp;
     uint_2                               FCURedundantColdFocalPlaneTemp;
-- 
2.43.0


From 23bfe05566dcee691ace6d22ad05c9a114c66240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 009/138] fix: print every HRIT straylight correction value

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index d4fcbdb..812dfe4 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -562,7 +562,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_RadiometricProc &t )
        << " : " << std::endl;
     for(int j = 0; j < 8; j ++)
     {
-      for(int k = 0; k < 8; k += 8)
+      for(int k = 0; k < 8; k += 4)
       {
         os << std::setw(12) << std::setfill(' ')
            << t.StraylightCorrection[i][j][k]   << " "
-- 
2.43.0


From d695eabce76af275cfeddd5108434064b39de52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 010/138] fix: make radiance_to_reflectance accept the solar
 channels

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 812dfe4..71686c4 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -31,6 +31,7 @@
 #include <cstring>
 #include <iomanip>
 #include <cmath>
+#include <stdexcept>
 #include <msat/facts.h>
 #include <msat/hrit/MSG_data_RadiometricProc.h>
 
@@ -670,10 +671,10 @@ float radiance_to_reflectance(int chnum, float radiance,
                               int hour, int minute,
                               float lat, float lon)
 {
-  if (chnum != 1 || chnum != 2 || chnum != 3 || chnum != 12)
+  if (chnum != 1 && chnum != 2 && chnum != 3 && chnum != 12)
   {
     std::cerr << "Wrong channel number : " << chnum << std::endl;
-    throw;
+    throw std::runtime_error("Wrong channel number");
   }
 
   int jd = msat::facts::jday(year, month, day);
@@ -686,6 +687,6 @@ float radiance_to_reflectance(int chnum, float radiance,
   double cos_sza = msat::facts::cos_sol_za(year, month, day, hour, minute, lat, lon);
   // Use cos(80°) as lower bound, to avoid division by zero
   if (cos_sza < cos80)
-    return cos80;
+    cos_sza = cos80;
   return 100.0 * radiance / tr / cos_sza;
 }
-- 
2.43.0


From 49a7db341dd3ec39d0238147cfab1ac16e0dab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 011/138] fix: read HRIT generalized times only from their 15
 bytes

---
 msat/hrit/MSG_time_cds.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index d47337a..9b88d5f 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -338,7 +338,10 @@ MSG_time_generalized::~MSG_time_generalized( ) { }
 
 size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 {
-  sscanf((char *) buff, "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
+  char_1 text[16];
+  memcpy(text, buff, 15);
+  text[15] = 0;
+  sscanf(text, "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
          &generalized_time.tm_mon,  &generalized_time.tm_mday,
          &generalized_time.tm_hour, &generalized_time.tm_min,
          &generalized_time.tm_sec);
-- 
2.43.0


From 62c9c8c4839cb88967fe21a9660964e8d46cb14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 012/138] fix: take HRIT generalized times as UTC

---
 msat/hrit/MSG_time_cds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index 9b88d5f..0ed6748 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -352,7 +352,7 @@ size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 
 time_t MSG_time_generalized::get_unixtime( )
 {
-  return mktime(&generalized_time);
+  return timegm(&generalized_time);
 }
 
 struct tm *MSG_time_generalized::get_timestruct( )
-- 
2.43.0


From 1f22f4e492e6f8caaa866c4695cec73b2a2fb523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 013/138] fix: do not return freed memory from get_timechar

---
 msat/hrit/MSG_time_cds.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index 0ed6748..3335b03 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -122,7 +122,9 @@ std::string MSG_time_cds_short::get_timestring( ) const
 
 char_1 *MSG_time_cds_short::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timechar;
+  timechar = get_timestring( );
+  return (char_1 *) timechar.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_short &h )
@@ -247,7 +249,9 @@ std::string MSG_time_cds_expanded::get_timestring( ) const
 
 char_1 *MSG_time_cds_expanded::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timechar;
+  timechar = get_timestring( );
+  return (char_1 *) timechar.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_expanded &h )
@@ -310,7 +314,9 @@ std::string MSG_time_cds::get_timestring( ) const
 
 char_1 *MSG_time_cds::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timechar;
+  timechar = get_timestring( );
+  return (char_1 *) timechar.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds &h )
@@ -380,7 +386,9 @@ std::string MSG_time_generalized::get_timestring( ) const
 
 char_1 *MSG_time_generalized::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timechar;
+  timechar = get_timestring( );
+  return (char_1 *) timechar.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_generalized &h )
-- 
2.43.0


From 7f2a1e8d2bb0f4d4115ddbe384eaf0d6f388846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 014/138] fix: find exactly the files of an xRIT image

Do not interpret directory names as glob patterns, do not cut long
product names short when looking for files, and do not read before the
start of empty file name fields.
---
 msat/xrit/fileaccess.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index ad68e24..cd07433 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -22,6 +22,7 @@
 
 #include <msat/xrit/fileaccess.h>
 #include <glob.h>
+#include <cstring>
 #include <stdexcept>
 #include <sstream>
 
@@ -38,12 +39,27 @@ namespace xrit {
 static std::string underscoreit(const std::string& base, int final_len)
 {
 	string res = base;
-	res.resize(final_len, '_');
+	if (res.size() < (size_t)final_len)
+		res.resize(final_len, '_');
 	return res;
 }
 
+// Escape the characters of a directory name that are special to glob()
+static std::string globescape(const std::string& str)
+{
+    std::string res;
+    for (size_t i = 0; i < str.size(); ++i)
+    {
+        if (strchr("*?[]\\", str[i]))
+            res += '\\';
+        res += str[i];
+    }
+    return res;
+}
+
 static std::string deunderscore(const std::string& str)
 {
+    if (str.empty()) return str;
     size_t pos = str.size() - 1;
     while (pos > 0 && str[pos] == '_')
         --pos;
@@ -180,7 +196,7 @@ void FileAccess::ensureComplete() const
 
 std::string FileAccess::prologueFile() const
 {
-  std::string filename = directory
+  std::string filename = globescape(directory)
 		       + PATH_SEPARATOR
 					 + resolution
 		       + "-" "???" "-" "??????" "-" // Split to avoid warnings on trigraphs
@@ -206,7 +222,7 @@ std::string FileAccess::prologueFile() const
 
 std::string FileAccess::epilogueFile() const
 {
-  std::string filename = directory
+  std::string filename = globescape(directory)
 		       + PATH_SEPARATOR
 					 + resolution
 		       + "-???" "-??????" "-"  // Split to avoid warnings on trigraphs
@@ -232,7 +248,7 @@ std::string FileAccess::epilogueFile() const
 
 std::vector<std::string> FileAccess::segmentFiles() const
 {
-    string filename = directory
+    string filename = globescape(directory)
         + PATH_SEPARATOR
         + resolution
         + "-???" "-??????" "-"  // Split to avoid warnings on trigraphs
-- 
2.43.0


From 004636c813d077fca3764ea47da06860da8a2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 015/138] fix: do not overflow the pixel count of large HRIT
 images

---
 msat/hrit/MSG_header_image_struct.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_header_image_struct.cpp b/msat/hrit/MSG_header_image_struct.cpp
index 9097f13..6fa8ec9 100644
--- a/msat/hrit/MSG_header_image_struct.cpp
+++ b/msat/hrit/MSG_header_image_struct.cpp
@@ -46,7 +46,7 @@ void MSG_header_image_struct::read_from( unsigned const char_1 *buff )
   number_of_columns         = get_ui2(buff+4);
   number_of_lines           = get_ui2(buff+6);
   compression_flag          = (t_enum_MSG_image_compression) buff[8];
-  image_pixels              = number_of_columns * number_of_lines;
+  image_pixels              = (uint_8) number_of_columns * number_of_lines;
   image_size                = (image_pixels*number_of_bits_per_pixel) / 8;
   if ((image_pixels*number_of_bits_per_pixel) % 8) image_size ++;
   return;
-- 
2.43.0


From f207ac63073c990e24f8c1ec8501472dda69b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 016/138] fix: read the SMM status of HRIT black body data in
 its byte order

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 71686c4..44a6fe6 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -413,9 +413,9 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   position += 2;
   FCURedundantBlackBodySensorTemp = get_ui2(buff+position);
   position += 2;
-  memcpy((void *) &FCUNominalSMMStatus, buff+position, 2);
+  FCUNominalSMMStatus.status = get_ui2(buff+position);
   position += 2;
-  memcpy((void *) &FCURedundantSMMStatus, buff+position, 2);
+  FCURedundantSMMStatus.status = get_ui2(buff+position);
   position += 2;
   for (int i = 0; i < 12; i ++)
     position += ExtractedBBData[i].read_from(buff+position);
-- 
2.43.0


From 45805d58da9490d1692c343ee29133be2d2700a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 017/138] fix: read the calibration constants of the IMPF
 configuration at their places

---
 msat/hrit/MSG_data_IMPFConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_IMPFConfiguration.cpp b/msat/hrit/MSG_data_IMPFConfiguration.cpp
index 35d084f..7a7baa8 100644
--- a/msat/hrit/MSG_data_IMPFConfiguration.cpp
+++ b/msat/hrit/MSG_data_IMPFConfiguration.cpp
@@ -344,7 +344,7 @@ size_t MSG_BlackBodyDataWarmStart::read_from( unsigned const char_1 *buff )
     GainInFrontOpticsCont[i] = get_r8(buff+position+i*8);
   position += 96;
   for (int i = 0; i < 12; i ++)
-    CalibrationConstants[i] = get_r4(buff+position+i*8);
+    CalibrationConstants[i] = get_r4(buff+position+i*4);
   position += 48;
   TimeOfColdObsSeconds = get_r8(buff+position);
   position += 8;
-- 
2.43.0


From 3ea022d40bb48ea018bd90b967d99976e1623eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 018/138] fix: do not trace every GRIB operation to
 /tmp/trace-gribapi, crashing when it cannot be opened

---
 gdal/grib/utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/utils.h b/gdal/grib/utils.h
index c5605d4..ba45023 100644
--- a/gdal/grib/utils.h
+++ b/gdal/grib/utils.h
@@ -8,7 +8,7 @@
 
 // Define this if you want to create a foile /tmp/trace-gribapi with a trace of
 // all grib_api operations
-#define TRACE_GRIBAPI
+// #define TRACE_GRIBAPI
 
 #ifdef TRACE_GRIBAPI
 #include <cstdio>
@@ -47,6 +47,7 @@ struct Grib
 #ifdef TRACE_GRIBAPI
     FILE* trace = nullptr;
     #define trace(...) do {\
+            if (!trace) break; \
             fprintf(trace, "GH %p: ", static_cast<const void*>(gh)); \
             fprintf(trace, __VA_ARGS__); \
             fprintf(trace, "\n"); \
@@ -83,7 +84,7 @@ struct Grib
 #endif
     }
     ~Grib() {
-        if (trace) trace("close");
+        trace("close");
         if (gh) grib_handle_delete(gh);
 #ifdef TRACE_GRIBAPI
         if (trace) fclose(trace);
-- 
2.43.0


From dffdd11b8366b7cf4057aae6951f83d98b6fc98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 019/138] fix: do not take pixels of images without a missing
 value for missing when writing GRIB

---
 gdal/grib/grib.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 47aece5..93825fa 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -337,13 +337,14 @@ struct CreateGRIB
             return false;
 
         // Scale values and count missing values
-        double missing = rb->GetNoDataValue();
+        int has_missing = FALSE;
+        double missing = rb->GetNoDataValue(&has_missing);
         double offset = rb->GetOffset();
         double scale = rb->GetScale();
         grib_missing = missing * scale + offset;
         for (auto& v: values)
         {
-            if (v == missing)
+            if (has_missing && v == missing)
             {
                 ++count_missing;
                 v = grib_missing;
-- 
2.43.0


From e8be895b68690b410c1294224fe459678859c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 020/138] fix: report failures to write GRIB files

---
 gdal/grib/grib.cpp | 9 ++++++---
 gdal/grib/utils.h  | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 93825fa..e573c75 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -609,7 +609,8 @@ struct CreateGRIB2 : public CreateGRIB
 
     bool create() override
     {
-        grib.new_from_samples(NULL, "GRIB2");
+        if (grib.new_from_samples(NULL, "GRIB2") != CE_None)
+            return false;
 
         if (!CreateGRIB::create())
             return false;
@@ -783,7 +784,8 @@ struct CreateGRIB1 : public CreateGRIB
 
     bool create() override
     {
-        grib.new_from_samples(NULL, "GRIB1");
+        if (grib.new_from_samples(NULL, "GRIB1") != CE_None)
+            return false;
 
         if (!CreateGRIB::create())
             return false;
@@ -862,7 +864,8 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
             return nullptr;
         }
 
-        grib.write(pszFilename);
+        if (grib.write(pszFilename) != CE_None)
+            return nullptr;
 
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
     } catch (griberror& e) {
diff --git a/gdal/grib/utils.h b/gdal/grib/utils.h
index ba45023..3a26b66 100644
--- a/gdal/grib/utils.h
+++ b/gdal/grib/utils.h
@@ -340,7 +340,11 @@ struct Grib
         }
         trace("written to file %s", filename.c_str());
 
-        fclose(out);
+        if (fclose(out) != 0)
+        {
+            CPLError(CE_Failure, CPLE_FileIO, "cannot write to file %s", filename.c_str());
+            return CE_Failure;
+        }
         trace("flushed");
         return CE_None;
     }
-- 
2.43.0


From 124247b90f233a6d6efcf7f8240a9e46903d21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 021/138] fix: report unusable GRIB sources and damaged GRIB
 files as errors

---
 gdal/grib/grib.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index e573c75..763f16f 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -69,7 +69,11 @@ public:
 		}
 
 		size_t length = nRasterXSize * nRasterYSize;
-		grib.get_double_array("values", (double*)buf, &length);
+		try {
+			grib.get_double_array("values", (double*)buf, &length);
+		} catch (griberror& e) {
+			return CE_Failure;
+		}
 		if (length != (size_t)(nRasterXSize * nRasterYSize)) {
 			CPLError(CE_Failure, CPLE_AppDefined, "Only %d values read instead of %d", (int)length, nRasterXSize * nRasterYSize);
 			return CE_Failure;
@@ -123,6 +127,9 @@ public:
 			return true;
 		} catch (griberror& e) {
 			return false;
+		} catch (std::exception& e) {
+			CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+			return false;
 		}
 	}
 
@@ -841,6 +848,12 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
                               int bStrict, char** papszOptions,
                               GDALProgressFunc pfnProgress, void* pProgressData)
 {
+    if (src->GetRasterCount() < 1 || !src->GetSpatialRef())
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "Cannot write a GRIB without a raster band and a projection");
+        return nullptr;
+    }
+
     try {
         const char* templateName = CSLFetchNameValue(papszOptions, "TEMPLATE");
         if (templateName == NULL)
@@ -870,6 +883,9 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
     } catch (griberror& e) {
         return nullptr;
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+        return nullptr;
     }
 }
 
-- 
2.43.0


From eb423e0b58cb9b5f9de34fbe4c136d112f34eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 022/138] fix: read high-resolution GRIBs with the nominal
 pixel size they are written with

---
 msat/facts.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/facts.cpp b/msat/facts.cpp
index ed1dd22..7276c0f 100644
--- a/msat/facts.cpp
+++ b/msat/facts.cpp
@@ -166,6 +166,7 @@ double pixelHSizeFromSeviriDX(int dx)
                 // Handle well-known values
                 case 3608: return METEOSAT_PIXELSIZE_X;
                 case 3622: return METEOSAT_PIXELSIZE_X;
+                case 10867: return METEOSAT_PIXELSIZE_X_HRV;
                 default:
                         return pixelHSizeFromCFAC(CFACFromSeviriDX(dx));
         }
@@ -178,6 +179,7 @@ double pixelVSizeFromSeviriDY(int dy)
                 // Handle well-known values
                 case 3608: return METEOSAT_PIXELSIZE_Y;
                 case 3622: return METEOSAT_PIXELSIZE_Y;
+                case 10867: return METEOSAT_PIXELSIZE_Y_HRV;
                 default:
                         return pixelVSizeFromLFAC(LFACFromSeviriDY(dy));
         }
-- 
2.43.0


From d62d020c2895ebafbf9dfd800b0a57018807cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 023/138] fix: do not translate a dataset with the bands and
 the size of the previous one

---
 msat/gdal/gdaltranslate.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index d6a2d55..6cf0d11 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -38,6 +38,7 @@
 #include <ogr_spatialref.h>
 #include <vrtdataset.h>
 #include <ostream>
+#include <vector>
 
 using namespace std;
 
@@ -110,6 +111,16 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
     // int                 iSrcFileArg = -1, iDstFileArg = -1;
     // int                 bCopySubDatasets = FALSE;
 
+    /* Work on copies of what depends on the dataset, so that the same    */
+    /* options can be used on more than one                               */
+    std::vector<int>    anBands;
+    int                 nBandCount = this->nBandCount;
+    int                 *panBandList = this->panBandList;
+    int                 bDefBands = this->bDefBands;
+    int                 anSrcWin[4];
+    for( i = 0; i < 4; i++ )
+        anSrcWin[i] = this->anSrcWin[i];
+
     /* Check strict compilation and runtime library version as we use C++ API */
     if (! GDAL_CHECK_VERSION("GDALTranslate"))
         return NULL;
@@ -204,7 +215,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             return NULL;
         }
 
-        panBandList = (int *) CPLMalloc(sizeof(int)*nBandCount);
+        anBands.resize(nBandCount);
+        panBandList = anBands.data();
         for( i = 0; i < nBandCount; i++ )
             panBandList[i] = i+1;
     }
-- 
2.43.0


From 01066d86d873d8bdee8e69e4079c46878909a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 024/138] fix: refuse windows and sizes that a dataset cannot
 have

---
 msat/gdal/gdaltranslate.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 6cf0d11..366c605 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -294,8 +294,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /* -------------------------------------------------------------------- */
     if( anSrcWin[0] < 0 || anSrcWin[1] < 0 
         || anSrcWin[2] <= 0 || anSrcWin[3] <= 0
-        || anSrcWin[0] + anSrcWin[2] > GDALGetRasterXSize(hDataset) 
-        || anSrcWin[1] + anSrcWin[3] > GDALGetRasterYSize(hDataset) )
+        || anSrcWin[0] > GDALGetRasterXSize(hDataset) - anSrcWin[2]
+        || anSrcWin[1] > GDALGetRasterYSize(hDataset) - anSrcWin[3] )
     {
         CPLError(CE_Failure, CPLE_AppDefined, 
                  "-srcwin %d %d %d %d falls outside raster size of %dx%d "
@@ -336,10 +336,20 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
     }
     else
     {
+        if( pszOXSize[0] == '\0' || pszOYSize == NULL || pszOYSize[0] == '\0' )
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "Incomplete output size");
+            return NULL;
+        }
         nOXSize = (int) ((pszOXSize[strlen(pszOXSize)-1]=='%' 
                           ? atof(pszOXSize)/100*anSrcWin[2] : atoi(pszOXSize)));
         nOYSize = (int) ((pszOYSize[strlen(pszOYSize)-1]=='%' 
                           ? atof(pszOYSize)/100*anSrcWin[3] : atoi(pszOYSize)));
+        if( nOXSize <= 0 || nOYSize <= 0 )
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "Invalid output size %dx%d", nOXSize, nOYSize);
+            return NULL;
+        }
     }
     
 /* ==================================================================== */
-- 
2.43.0


From 0ead701129f44c9b6ce9fa795119351c86eff453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 025/138] fix: do not free the metadata options of a
 translation before its next use

---
 msat/gdal/gdaltranslate.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 366c605..3a05e05 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -91,6 +91,7 @@ GDALTranslate::~GDALTranslate()
 {
     CPLFree( panBandList );
     CSLDestroy( papszCreateOptions );
+    CSLDestroy( papszMetadataOptions );
 }
 
 /************************************************************************/
@@ -601,8 +602,6 @@ static void AttachMetadata( GDALDatasetH hDS, char **papszMetadataOptions )
         GDALSetMetadataItem(hDS,pszKey,pszValue,NULL);
         CPLFree( pszKey );
     }
-
-    CSLDestroy( papszMetadataOptions );
 }
 
 void GDALTranslate::dump(std::ostream& out)
-- 
2.43.0


From 1208faf25b53396526976cd534e8737993f71f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 026/138] fix: recode datasets to the size that is asked for

---
 msat/gdal/dataset.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 5ca2320..36b0d62 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -124,7 +124,16 @@ GDALDataset* recode(
 	translate.anSrcWin[2] = cropArea.bottomRight.column - cropArea.topLeft.column;
 	translate.anSrcWin[3] = cropArea.bottomRight.line - cropArea.topLeft.line;
 
+	std::string oxsize = std::to_string(sx);
+	std::string oysize = std::to_string(sy);
+	if (sx != translate.anSrcWin[2] || sy != translate.anSrcWin[3])
+	{
+		translate.pszOXSize = oxsize.c_str();
+		translate.pszOYSize = oysize.c_str();
+	}
+
 	GDALDataset* vds = translate.translate(ds);
+	if (!vds) return NULL;
 
 	char** options = 0;
 	if (!opt1.empty()) options = CSLAddString(options, opt1.c_str());
-- 
2.43.0


From 61ebfd188245e2e800e1dc22d6fabd735d4dc6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 027/138] fix: report projections without geographic
 coordinates as errors

---
 gdal/reflectance/pixeltolatlon.cpp | 11 +++++++++++
 msat/gdal/dataset.cpp              | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/gdal/reflectance/pixeltolatlon.cpp b/gdal/reflectance/pixeltolatlon.cpp
index 35fcdb2..d23067a 100644
--- a/gdal/reflectance/pixeltolatlon.cpp
+++ b/gdal/reflectance/pixeltolatlon.cpp
@@ -17,8 +17,19 @@ PixelToLatlon::PixelToLatlon(GDALDataset* ds)
 
     proj = osr->Clone();
     latlon = proj->CloneGeogCS();
+    if (!latlon)
+    {
+        delete proj;
+        throw std::runtime_error("the projection of the input dataset has no geographic coordinates");
+    }
     latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
+    if (!toLatLon)
+    {
+        delete proj;
+        delete latlon;
+        throw std::runtime_error("cannot convert the projection of the input dataset to geographic coordinates");
+    }
 #if GDAL_VERSION_MAJOR >= 3
     toLatLon->SetEmitErrors(false);
 #endif
diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 36b0d62..0694c73 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -221,12 +221,22 @@ CPLErr GeoReferencer::init(GDALDataset* ds)
     proj = osr->Clone();
     proj->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     latlon = proj->CloneGeogCS();
+    if (!latlon)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "the projection of the input dataset has no geographic coordinates");
+        return CE_Failure;
+    }
     latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
     fromLatLon = OGRCreateCoordinateTransformation(latlon, proj);
 
 	delete proj; proj = 0;
 	delete latlon; latlon = 0;
+	if (!toLatLon || !fromLatLon)
+	{
+		CPLError(CE_Failure, CPLE_AppDefined, "cannot convert the projection of the input dataset to geographic coordinates");
+		return CE_Failure;
+	}
 	return CE_None;
 }
 
-- 
2.43.0


From a72175d6388e12f9e036c72ffd81f415a6974c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 028/138] fix: compute satellite zenith angles from the
 longitude the satellite is at

---
 gdal/reflectance/pixeltolatlon.cpp | 1 +
 gdal/reflectance/pixeltolatlon.h   | 2 ++
 gdal/reflectance/reflectance.cpp   | 2 +-
 gdal/reflectance/sat_za.cpp        | 2 +-
 4 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/gdal/reflectance/pixeltolatlon.cpp b/gdal/reflectance/pixeltolatlon.cpp
index d23067a..19b65a6 100644
--- a/gdal/reflectance/pixeltolatlon.cpp
+++ b/gdal/reflectance/pixeltolatlon.cpp
@@ -16,6 +16,7 @@ PixelToLatlon::PixelToLatlon(GDALDataset* ds)
         throw std::runtime_error("no projection name found in input dataset");
 
     proj = osr->Clone();
+    sublon = proj->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 0.0);
     latlon = proj->CloneGeogCS();
     if (!latlon)
     {
diff --git a/gdal/reflectance/pixeltolatlon.h b/gdal/reflectance/pixeltolatlon.h
index 4a1c6fb..acf13fd 100644
--- a/gdal/reflectance/pixeltolatlon.h
+++ b/gdal/reflectance/pixeltolatlon.h
@@ -10,6 +10,8 @@ namespace utils {
 struct PixelToLatlon
 {
     double geoTransform[6];
+    /// Longitude of the satellite
+    double sublon = 0.0;
     OGRSpatialReference* proj = nullptr;
     OGRSpatialReference* latlon = nullptr;
     OGRCoordinateTransformation* toLatLon = nullptr;
diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index a715aea..1aa2360 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -280,7 +280,7 @@ CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
         double cosTETA = facts::cos_sol_za(jday, daytime, lats[i], lons[i]);
         // Use cos(80°) as lower bound, to avoid division by zero
         if (cosTETA < cos80) cosTETA = cos80;
-        double SAT = facts::sat_za(lats[i], lons[i]);
+        double SAT = facts::sat_za(lats[i], lons[i] - p2ll->sublon);
         // Original from MMKM2010:
         //double TOARAD = 4.92 / (esd*esd) * cosTETA * exp(-(1-R39_corr)) * exp(-(1-R39_corr) * cosTETA / cos(SAT));
         // Version from MSGProc:
diff --git a/gdal/reflectance/sat_za.cpp b/gdal/reflectance/sat_za.cpp
index da40a80..c136fb7 100644
--- a/gdal/reflectance/sat_za.cpp
+++ b/gdal/reflectance/sat_za.cpp
@@ -48,7 +48,7 @@ public:
         for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
         {
             // Just the solar zenith angle
-            dest[i] = facts::sat_za(lats[i], lons[i]);
+            dest[i] = facts::sat_za(lats[i], lons[i] - p2ll->sublon);
             // Normalise outliars
             switch (fpclassify(dest[i]))
             {
-- 
2.43.0


From 66b0ed005f688f9c8433999bcd5049b06a29355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 029/138] fix: report products that cannot be computed from a
 GRIB as errors

---
 gdal/grib/grib.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 763f16f..b27cf66 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -233,7 +233,12 @@ GDALDataset* GRIBOpen(GDALOpenInfo* info)
     // Initialise the dataset
     if (!ds->init()) return NULL;
 
-    return msat::gdal::add_extras(ds.release(), info);
+    try {
+        return msat::gdal::add_extras(ds.release(), info);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+        return NULL;
+    }
 }
 
 #if 0
-- 
2.43.0


From 338301ffcde18615ef9167336f2c586deea224de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 030/138] fix: leave reflectances missing where a channel they
 are computed from is missing

---
 gdal/reflectance/reflectance.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index 1aa2360..566d4f8 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -95,6 +95,20 @@ double ReflectanceRasterBand::GetNoDataValue(int* pbSuccess)
 }
 
 
+namespace {
+
+/// The missing value of a source raster band, if it has one
+struct MissingValue
+{
+    int defined = FALSE;
+    double value;
+
+    MissingValue(GDALRasterBand* rb) { value = rb->GetNoDataValue(&defined); }
+    bool operator()(double val) const { return defined && val == value; }
+};
+
+}
+
 SingleChannelReflectanceRasterBand::SingleChannelReflectanceRasterBand(ReflectanceDataset* ds, int idx)
     : ReflectanceRasterBand(ds, idx)
 {
@@ -139,10 +153,17 @@ CPLErr SingleChannelReflectanceRasterBand::IReadBlock(int xblock, int yblock, vo
     std::vector<double> lons(nBlockXSize * nBlockYSize);
     p2ll->compute(xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, lats.data(), lons.data());
 
+    MissingValue missing(source_rb);
+
     // Compute reflectances
     float* dest = (float*)buf;
     for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
     {
+        if (missing(raw[i]))
+        {
+            dest[i] = 0.0;
+            continue;
+        }
         // From counts to radiance
         double radiance = raw[i] * rad_slope + rad_offset;
         double cossza = facts::cos_sol_za(jday, daytime, lats[i], lons[i]);
@@ -253,10 +274,19 @@ CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
     const double B = 3.471;
     double esd = 1.0 - 0.0167 * cos( 2.0 * M_PI * (jday - 3) / 365.0);
 
+    MissingValue missing039(source_ir039);
+    MissingValue missing108(source_ir108);
+    MissingValue missing134(source_ir134);
+
     // Compute reflectances
     float* dest = (float*) buf;
     for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
     {
+        if (missing039(raw039[i]) || missing108(raw108[i]) || missing134(raw134[i]))
+        {
+            dest[i] = 0.0;
+            continue;
+        }
         // We can compute radiance from counts straight away
         //double R_tot = (raw039[i] * rad_slope) + rad_offset;
         // But we use the Brightness Temperature instead, so we can apply CO2
-- 
2.43.0


From a3bee6f64dee583910775d2de61fbcb29a75f814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 031/138] fix: keep missing pixels missing in calibrated
 datasets

---
 msat/gdal/dataset.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 0694c73..1483d93 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -409,10 +409,19 @@ CPLErr CalibratedRasterBand::IReadBlock(int xblock, int yblock, void *buf)
     if (ProxyRasterBand::IReadBlock(xblock, yblock, raw) == CE_Failure)
         return CE_Failure;
 
+    int has_missing = FALSE;
+    double missing = rb.GetNoDataValue(&has_missing);
+
     // Compute reflectances
     float* dest = (float*) buf;
     for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
     {
+        // Missing counts are missing also when calibrated
+        if (has_missing && raw[i] == missing)
+        {
+            dest[i] = 0.0;
+            continue;
+        }
         // Calibrate from counts to radiance
         dest[i] = raw[i] * scale + ofs;
     }
-- 
2.43.0


From bfcfacdeb65d67fbbc55ee2f8fec63a7583982a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 032/138] fix: report damaged native files with an exception

---
 msat/msg-native/MSG_native_header.cpp  | 16 ++++++----------
 msat/msg-native/MSG_native_line.cpp    | 17 +++++++----------
 msat/msg-native/MSG_native_trailer.cpp | 16 +++++-----------
 tools/msg-native/native2Image.cpp      |  5 ++++-
 tools/msg-native/nativedump.cpp        |  5 ++++-
 5 files changed, 26 insertions(+), 33 deletions(-)

diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index f3c0aee..f35e50f 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 #include <msat/msg-native/MSG_native_header.h>
+#include <stdexcept>
 
 void U_MARF_Header::read_from(const unsigned char *buf)
 {
@@ -89,30 +90,26 @@ void MSG_native_header::read( std::ifstream &in )
   in.read((char *) ubuf, mph_sph_header.mph_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: U-MARF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: U-MARF Header.");
   }
   mph_sph_header.read_from(ubuf);
 
   in.read((char *) lbuf, impf_packet_header.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header.");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -132,8 +129,7 @@ void MSG_native_header::read( std::ifstream &in )
   p += MSG_IMPF_CONFIGURATION_LEN;
   if (((unsigned int) (p-x)) != l15_len)
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
 
   return;
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 186e2e2..96f09cb 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -23,6 +23,7 @@
 //-----------------------------------------------------------------------------
 
 #include <msat/msg-native/MSG_native_line.h>
+#include <stdexcept>
 #include <msat/hrit/MSG_machine.h>
 
 MSG_native_linedata::MSG_native_linedata( )
@@ -190,29 +191,25 @@ void MSG_native_line::read( std::ifstream &in )
   in.read((char *) lbuf, pkh.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Packet Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Header.");
   }
   pkh.read_from(lbuf);
-  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
-  if (data.datasize < 0)
+  if (pkh.gp_packet_header.PacketLength < (unsigned long) (15 + header.lhlen))
   {
-    std::cerr << "Read error from Native file: Packet Size." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Size.");
   }
+  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Line Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Header.");
   }
   header.read_from(lhbuf);
   in.read((char *) data.data_10bit, data.datasize);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Line Data." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Data.");
   }
   return;
 }
diff --git a/msat/msg-native/MSG_native_trailer.cpp b/msat/msg-native/MSG_native_trailer.cpp
index 2cf427f..28c1146 100644
--- a/msat/msg-native/MSG_native_trailer.cpp
+++ b/msat/msg-native/MSG_native_trailer.cpp
@@ -23,6 +23,7 @@
 //-----------------------------------------------------------------------------
 
 #include <msat/msg-native/MSG_native_trailer.h>
+#include <stdexcept>
 
 void MSG_native_trailer::read( std::ifstream &in )
 {
@@ -32,24 +33,19 @@ void MSG_native_trailer::read( std::ifstream &in )
   in.read((char *) lbuf, impf_packet_header.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header.");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
-    std::cerr << "Trailer Size: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Trailer.");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
-    std::cerr << "Trailer: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Trailer.");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -65,9 +61,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   p += MSG_TIMELINESS_COMPLETENESS_LEN;
   if (((unsigned int) (p-x)) != l15_len)
   {
-    std::cerr << "Trailer checksum: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Trailer.");
   }
 
   return;
diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 0c0b799..83e048f 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -38,7 +38,7 @@
 #include <config.h>
 
 int main(int argc, char **argv)
-{
+try {
   MSG_native native;
   char *format;
   float gfactor;
@@ -91,4 +91,7 @@ int main(int argc, char **argv)
 
   native.close( );
   return 0;
+} catch (std::exception& e) {
+  std::cerr << e.what() << std::endl;
+  return 1;
 }
diff --git a/tools/msg-native/nativedump.cpp b/tools/msg-native/nativedump.cpp
index 6f5f621..786aa29 100644
--- a/tools/msg-native/nativedump.cpp
+++ b/tools/msg-native/nativedump.cpp
@@ -25,7 +25,7 @@
 #include <msat/msg-native/MSG_native.h>
 
 int main(int argc, char **argv)
-{
+try {
   MSG_native native;
 
   if (argc < 2) return 1;
@@ -37,4 +37,7 @@ int main(int argc, char **argv)
 
   native.close( );
   return 0;
+} catch (std::exception& e) {
+  std::cerr << e.what() << std::endl;
+  return 1;
 }
-- 
2.43.0


From 3811116f87a7d4ae2c856d6eb22a6af6e28f8e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 033/138] fix: let the lines of native files be copied

---
 msat/msg-native/MSG_native_line.cpp | 25 +++++++++++++++++++++++++
 msat/msg-native/MSG_native_line.h   |  2 ++
 2 files changed, 27 insertions(+)

diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 96f09cb..7fa0e3c 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -24,6 +24,7 @@
 
 #include <msat/msg-native/MSG_native_line.h>
 #include <stdexcept>
+#include <cstring>
 #include <msat/hrit/MSG_machine.h>
 
 MSG_native_linedata::MSG_native_linedata( )
@@ -32,6 +33,28 @@ MSG_native_linedata::MSG_native_linedata( )
   datasize = 0;
 }
 
+MSG_native_linedata::MSG_native_linedata(const MSG_native_linedata &d)
+{
+  data_10bit = 0;
+  datasize = 0;
+  *this = d;
+}
+
+MSG_native_linedata &MSG_native_linedata::operator=(const MSG_native_linedata &d)
+{
+  if (this == &d) return *this;
+  unsigned char *copy = 0;
+  if (d.data_10bit)
+  {
+    copy = new unsigned char[d.datasize];
+    memcpy(copy, d.data_10bit, d.datasize);
+  }
+  delete [ ] data_10bit;
+  data_10bit = copy;
+  datasize = d.datasize;
+  return *this;
+}
+
 MSG_native_linedata::~MSG_native_linedata( )
 {
   if (data_10bit)
@@ -198,6 +221,8 @@ void MSG_native_line::read( std::ifstream &in )
   {
     throw std::runtime_error("Read error from Native file: Packet Size.");
   }
+  delete [ ] data.data_10bit;
+  data.data_10bit = 0;
   data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
diff --git a/msat/msg-native/MSG_native_line.h b/msat/msg-native/MSG_native_line.h
index fc36f3c..afb7e66 100644
--- a/msat/msg-native/MSG_native_line.h
+++ b/msat/msg-native/MSG_native_line.h
@@ -88,6 +88,8 @@ class MSG_native_lineheader {
 class MSG_native_linedata {
   public:
     MSG_native_linedata( );
+    MSG_native_linedata(const MSG_native_linedata &d);
+    MSG_native_linedata &operator=(const MSG_native_linedata &d);
     ~MSG_native_linedata( );
 
     void to_sample(unsigned short **samples, long *nsample);
-- 
2.43.0


From 7f7b34003d563bc38f89b07ee44079eebbc1b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 034/138] fix: read exactly the samples of the lines of native
 files

---
 msat/msg-native/MSG_native.cpp      | 26 +++++++++++++++++---------
 msat/msg-native/MSG_native_line.cpp |  8 ++++++--
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index cbaf9ef..386fa68 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -168,7 +168,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_native &m )
     std::list <MSG_native_line>::iterator p = m.line[ic].begin( );
     while (p != m.line[ic].end( ))
     {
-      std::cout << *p;
+      os << *p;
       p ++;
     }
   }
@@ -189,20 +189,25 @@ bool MSG_native::pgmdump(int ic, char *filename)
   os << numbercolumns[ic] << " " << numberlines[ic] << std::endl;
   os << "1024" << std::endl;
 
-  unsigned short *s = 0;
   long ns;
 
   std::list <MSG_native_line>::iterator p = line[ic].begin( );
   while (p != line[ic].end( ))
   {
+    unsigned short *s = 0;
     p->data.to_sample(&s, &ns);
-    os.write((char *) s, ns*sizeof(short));
+    // Samples of more than one byte have the most significant byte first
+    for (long i = 0; i < numbercolumns[ic]; i ++)
+    {
+      unsigned short v = i < ns ? s[i] : 0;
+      os.put((char) (v >> 8));
+      os.put((char) (v & 255));
+    }
+    delete [ ] s;
     p ++;
   }
   os.close( );
 
-  delete [ ] s;
-
   return true;
 }
 
@@ -223,19 +228,22 @@ unsigned short *MSG_native::data(int channel)
   if (channel < 0 || channel >= SEVIRI_CHANNELS) return 0;
   if (!selected_channel[channel]) return 0;
 
-  long size = numberlines[channel]*numbercolumns[channel];
+  long size = (long) numberlines[channel]*numbercolumns[channel];
   long px = numbercolumns[channel];
 
   unsigned short *s = new unsigned short[size];
-  unsigned short *sp;
+  memset(s, 0, size*sizeof(unsigned short));
   long ns;
 
   std::list <MSG_native_line>::iterator p = line[channel].begin( );
   int count = 0;
-  while (p != line[channel].end( ))
+  while (p != line[channel].end( ) && count < numberlines[channel])
   {
-    sp = s+count*px;
+    // Lines are padded to a multiple of 4 samples
+    unsigned short *sp = 0;
     p->data.to_sample(&sp, &ns);
+    memcpy(s+count*px, sp, (ns < px ? ns : px)*sizeof(unsigned short));
+    delete [ ] sp;
     p ++;
     count ++;
   }
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 7fa0e3c..64c5a13 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -190,7 +190,7 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
   unsigned short *ps = *samples;
   unsigned char  *pc = data_10bit;
   unsigned int ipos = 0;
-  while (ipos < datasize)
+  while (ipos + 5 <= datasize)
   {
     ps[0] = (((unsigned short) pc[0]      ) << 2) |
             (((unsigned short) pc[1]      ) >> 6);
@@ -204,6 +204,9 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
     ipos += 5;
     ps   += 4;
   }
+  // Samples of a last, incomplete group
+  for (long i = 0; i < *nsample % 4; i ++)
+    ps[i] = ((((unsigned short) pc[i] << 8) | pc[i+1]) >> (6 - 2*i)) & 1023;
   return;
 }
 
@@ -245,10 +248,11 @@ std::ostream& operator<< ( std::ostream& os, MSG_native_line &l )
   long ns;
   unsigned short *p = 0;
   l.data.to_sample(&p, &ns);
-  std::cout << "Got " << ns << " samples from channel "
+  os << "Got " << ns << " samples from channel "
             << (short) l.header.ChannelId
             << ", line count " << l.header.LineNumberInGrid << std::endl;
   for (int i = 0; i < ns; i ++)
     os << p[i] << std::endl;
+  delete [ ] p;
   return os;
 }
-- 
2.43.0


From 8961647d0359f767b28df3fcea10c68fdaf6cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 035/138] fix: refuse native files with a damaged U-MARF header

---
 msat/msg-native/MSG_native.cpp        | 67 ++++++++++++++++-----------
 msat/msg-native/MSG_native_header.cpp |  3 +-
 2 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 386fa68..240b79d 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -24,6 +24,7 @@
 #include <iostream>
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <msat/msg-native/MSG_native.h>
 
 MSG_native::MSG_native( )
@@ -67,7 +68,7 @@ void MSG_native::close( )
     endcolumn[i] = 0;
   }
   nchannels = 0; 
-  if (in) in.close( );
+  if (in.is_open( )) in.close( );
   headerpos = datapos = trailerpos = 0;
   return;
 }
@@ -77,23 +78,33 @@ MSG_native::~MSG_native( )
   close( );
 }
 
+// Value of a number of the U-MARF header
+static long number(const std::string &info, const char *format)
+{
+  long res;
+  if (sscanf(info.c_str( ), format, &res) != 1)
+    throw std::runtime_error("Read error from Native file: wrong U-MARF Header value: " + info);
+  return res;
+}
+
 void MSG_native::read( )
 {
   header.read(in);
-  sscanf(header.mph_sph_header.mphinfo[8].c_str( ),
-          "%*s : %*d %ld\n", &headerpos);
-  sscanf(header.mph_sph_header.mphinfo[9].c_str( ),
-          "%*s : %*d %ld\n", &datapos);
-  sscanf(header.mph_sph_header.mphinfo[10].c_str( ),
-          "%*s : %*d %ld\n", &trailerpos);
+  headerpos = number(header.mph_sph_header.mphinfo[8],
+          "%*s : %*d %ld\n");
+  datapos = number(header.mph_sph_header.mphinfo[9],
+          "%*s : %*d %ld\n");
+  trailerpos = number(header.mph_sph_header.mphinfo[10],
+          "%*s : %*d %ld\n");
   in.seekg(trailerpos, std::ios::beg);
   trailer.read(in);
   in.seekg(datapos, std::ios::beg);
 
   char bandsel[16];
-  sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
-         "%*s : %s", bandsel);
-  for (int i = 0; i < SEVIRI_CHANNELS; i ++)
+  if (sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
+         "%*s : %15s", bandsel) != 1)
+    throw std::runtime_error("Read error from Native file: no selected bands");
+  for (int i = 0; i < SEVIRI_CHANNELS && bandsel[i]; i ++)
   {
     if (bandsel[i] == 'X')
     {
@@ -102,18 +113,20 @@ void MSG_native::read( )
     }
   }
   long nlines, ncols, startl, stopl, startc, stopc = 0;
-  sscanf(header.mph_sph_header.mphinfo[40].c_str( ),
-         "%*s : %ld", &startl);
-  sscanf(header.mph_sph_header.mphinfo[41].c_str( ),
-         "%*s : %ld", &stopl);
-  sscanf(header.mph_sph_header.mphinfo[44].c_str( ),
-         "%*s : %ld", &nlines);
-  sscanf(header.mph_sph_header.mphinfo[42].c_str( ),
-         "%*s : %ld", &startc);
-  sscanf(header.mph_sph_header.mphinfo[43].c_str( ),
-         "%*s : %ld", &stopc);
-  sscanf(header.mph_sph_header.mphinfo[45].c_str( ),
-         "%*s : %ld", &ncols);
+  startl = number(header.mph_sph_header.mphinfo[40],
+         "%*s : %ld");
+  stopl = number(header.mph_sph_header.mphinfo[41],
+         "%*s : %ld");
+  nlines = number(header.mph_sph_header.mphinfo[44],
+         "%*s : %ld");
+  startc = number(header.mph_sph_header.mphinfo[42],
+         "%*s : %ld");
+  stopc = number(header.mph_sph_header.mphinfo[43],
+         "%*s : %ld");
+  ncols = number(header.mph_sph_header.mphinfo[45],
+         "%*s : %ld");
+  if (nlines < 0 || nlines > 65535 || ncols < 0 || ncols > 65535)
+    throw std::runtime_error("Read error from Native file: wrong image size");
 
   MSG_native_line aline;
   for (int il = 0; il < nlines; il ++)
@@ -144,10 +157,12 @@ void MSG_native::read( )
   }
   if (selected_channel[HRV_CHANNEL])
   {
-    sscanf(header.mph_sph_header.mphinfo[46].c_str( ),
-           "%*s : %ld", &nlines);
-    sscanf(header.mph_sph_header.mphinfo[47].c_str( ),
-           "%*s : %ld", &ncols);
+    nlines = number(header.mph_sph_header.mphinfo[46],
+           "%*s : %ld");
+    ncols = number(header.mph_sph_header.mphinfo[47],
+           "%*s : %ld");
+    if (nlines < 0 || nlines > 65535 || ncols < 0 || ncols > 65535)
+      throw std::runtime_error("Read error from Native file: wrong image size");
     numberlines[HRV_CHANNEL] = nlines;
     startline[HRV_CHANNEL] = startl;
     endline[HRV_CHANNEL] = stopl;
diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index f35e50f..7ab0730 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -84,7 +84,7 @@ void U_MARF_Header::read_from(const unsigned char *buf)
 
 void MSG_native_header::read( std::ifstream &in )
 {
-  unsigned char ubuf[mph_sph_header.mph_len];
+  unsigned char ubuf[mph_sph_header.mph_len+1];
   unsigned char lbuf[impf_packet_header.pkh_len];
   unsigned char l15buf[l15_len];
   in.read((char *) ubuf, mph_sph_header.mph_len);
@@ -92,6 +92,7 @@ void MSG_native_header::read( std::ifstream &in )
   {
     throw std::runtime_error("Read error from Native file: U-MARF Header.");
   }
+  ubuf[mph_sph_header.mph_len] = 0;
   mph_sph_header.read_from(ubuf);
 
   in.read((char *) lbuf, impf_packet_header.pkh_len);
-- 
2.43.0


From adcc9edc526f1a61383f7aa89ddb1c8aaeef7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 036/138] fix: write the images of native files at the size
 asked for, and only of channels they have

---
 tools/msg-native/native2Image.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 83e048f..8cc9d8e 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -75,6 +75,12 @@ try {
 
   native.read( );
 
+  if (native.pixels(ichn) == 0 || native.lines(ichn) == 0)
+  {
+    std::cerr << "Exit: no such channel in the file." << std::endl;
+    return -1;
+  }
+
   Magick::Image *image = new Magick::Image(native.pixels(ichn),
                          native.lines(ichn), "I", Magick::ShortPixel,
                          native.data(ichn)); 
@@ -83,11 +89,11 @@ try {
 
   image->normalize( );
   image->rotate(180.0);
-  image->write(outname);
 
   Magick::Geometry geom((int) ((float) native.pixels(ichn)*gfactor),
                         (int) ((float) native.lines(ichn) *gfactor));
   image->scale(geom);
+  image->write(outname);
 
   native.close( );
   return 0;
-- 
2.43.0


From 2311739721ae98f5f20421abd40cc950d5c4d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 037/138] fix: report OpenMTP-IDS errors with exceptions that
 can be caught

---
 msat/omtp-ids/OpenMTP-IDS.cc         | 13 +++++++------
 msat/omtp-ids/OpenMTP-IDS.hh         |  3 ++-
 msat/omtp-ids/Record.cc              |  5 +++--
 msat/omtp-ids/ScanLine.cc            |  5 +++--
 tools/omtp-ids/OpenMTP-IDS_debug.cc  |  4 ++--
 tools/omtp-ids/OpenMTP-IDS_sector.cc |  4 ++--
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc |  4 ++--
 tools/omtp-ids/OpenMTP-IDS_write.cc  |  4 ++--
 8 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ce35df8..573cc77 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -22,6 +22,7 @@
 //
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <algorithm>
 
@@ -74,7 +75,7 @@ operator>>(std::istream& is,
 
 	is >> openmtp_ids.m_fileheader;
 	if (!is.good()) {
-		throw "failure while reading file header\n";
+		throw std::runtime_error("failure while reading file header");
 	}
 
 	// the first record was just read..
@@ -85,7 +86,7 @@ operator>>(std::istream& is,
 	for (unsigned i = 0; i < no_records; i++) {
 		is >> openmtp_ids.m_record[i];
 		if (!is.good()) {
-			throw "failure while reading record\n";
+			throw std::runtime_error("failure while reading record");
 		}
 	}
 
@@ -103,7 +104,7 @@ OpenMTP_IDS::read(const char* filename)
 		err += "could not open ";
 		err += filename;
 		err += " for reading";
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	is >> *this;
@@ -112,7 +113,7 @@ OpenMTP_IDS::read(const char* filename)
 		std::string err;
 		err += "error while reading ";
 		err += filename;
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	is.close();
@@ -129,7 +130,7 @@ OpenMTP_IDS::write(const char* filename)
 		err += "could not open ";
 		err += filename;
 		err += " for writing";
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	os << *this;
@@ -138,7 +139,7 @@ OpenMTP_IDS::write(const char* filename)
 		std::string err;
 		err += "error while writing ";
 		err += filename;
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	os.close();
diff --git a/msat/omtp-ids/OpenMTP-IDS.hh b/msat/omtp-ids/OpenMTP-IDS.hh
index 97dcc00..e477539 100644
--- a/msat/omtp-ids/OpenMTP-IDS.hh
+++ b/msat/omtp-ids/OpenMTP-IDS.hh
@@ -33,6 +33,7 @@
 // SYSTEM INCLUDES
 //
 #include <iosfwd>
+#include <stdexcept>
 #include <vector>
 
 // PROJECT INCLUDES
@@ -122,7 +123,7 @@ inline
 OpenMTP_IDS::OpenMTP_IDS(const char* filename)
 {
 	if (!read(filename)) {
-		throw "read failure";
+		throw std::runtime_error("read failure");
 	}
 }
 
diff --git a/msat/omtp-ids/Record.cc b/msat/omtp-ids/Record.cc
index 3e1caf1..e2f4c16 100644
--- a/msat/omtp-ids/Record.cc
+++ b/msat/omtp-ids/Record.cc
@@ -21,6 +21,7 @@
 // SYSTEM INCLUDES
 //
 #include <iostream>
+#include <stdexcept>
 
 // PROJECT INCLUDES
 //
@@ -65,7 +66,7 @@ operator>>(std::istream& is,
 
 	is >> record.m_recordheader;
 	if (!is.good()) {
-		throw "failure while reading record header\n";
+		throw std::runtime_error("failure while reading record header");
 	}
 
 	const int no_scanlines = record.m_recordheader.no_scanlines();
@@ -74,7 +75,7 @@ operator>>(std::istream& is,
 	for (int i = 0; i < no_scanlines; i++) {
 		is >> record.m_scanline[i];
 		if (!is.good()) {
-			throw "failure while reading scan line\n";
+			throw std::runtime_error("failure while reading scan line");
 		}
 	}
 
diff --git a/msat/omtp-ids/ScanLine.cc b/msat/omtp-ids/ScanLine.cc
index 3c85f2f..d15fe54 100644
--- a/msat/omtp-ids/ScanLine.cc
+++ b/msat/omtp-ids/ScanLine.cc
@@ -21,6 +21,7 @@
 // SYSTEM INCLUDES
 //
 #include <iostream>
+#include <stdexcept>
 
 // PROJECT INCLUDES
 //
@@ -72,7 +73,7 @@ operator>>(std::istream& is,
 
 	is >> scanline.m_lineheader;
 	if (!is.good()) {
-		throw "failure while reading line header\n";
+		throw std::runtime_error("failure while reading line header");
 	}
 
 	const int no_pixels = scanline.m_lineheader.no_pixels();
@@ -81,7 +82,7 @@ operator>>(std::istream& is,
 	for (int i = 0; i < no_pixels; i++) {
 		scanline.m_linepixel[i] = is.get();
 		if (!is.good()) {
-			throw "failure while reading line pixel\n";
+			throw std::runtime_error("failure while reading line pixel");
 		}
 	}
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_debug.cc b/tools/omtp-ids/OpenMTP-IDS_debug.cc
index 5fe7a67..51488af 100644
--- a/tools/omtp-ids/OpenMTP-IDS_debug.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_debug.cc
@@ -59,8 +59,8 @@ main(int argc, char* argv[])
 	try {
 		OpenMTP_IDS openmtp(argv[1]);
 		openmtp.debug(std::cout);
-	} catch (const char* err) {
-		std::cout << argv[0] << ": " << err << std::endl;
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
 		return EXIT_FAILURE;
 	}
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index 8bfc48b..706b075 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -171,8 +171,8 @@ main(int argc, char* argv[])
 	OpenMTP_IDS omtp_ids;
 	try {
 		omtp_ids = OpenMTP_IDS(argv[1]);
-	} catch (char* err) {
-		std::cout << argv[0] << ": " << err << std::endl;
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
 		return EXIT_FAILURE;
 	}
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 65be161..66e8b4a 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -188,8 +188,8 @@ main(int argc, char* argv[])
 	OpenMTP_IDS omtp_ids;
 	try {
 		omtp_ids = OpenMTP_IDS(argv[1]);
-	} catch (const char* err) {
-		std::cout << argv[0] << ": " << err << std::endl;
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
 		return EXIT_FAILURE;
 	}
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_write.cc b/tools/omtp-ids/OpenMTP-IDS_write.cc
index 9f79cef..59044f7 100644
--- a/tools/omtp-ids/OpenMTP-IDS_write.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_write.cc
@@ -61,8 +61,8 @@ main(int argc, char* argv[])
 	try {
 		OpenMTP_IDS openmtp(argv[1]);
 		openmtp.write("test.omtp-ids");
-	} catch (const char* err) {
-		std::cout << argv[0] << ": " << err << std::endl;
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From a9d010e09fb59d025147d38f2800751c671262bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 038/138] fix: refuse inconsistent record counts of OpenMTP-IDS
 files

---
 msat/omtp-ids/OpenMTP-IDS.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index 573cc77..402c017 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -54,6 +54,11 @@ std::ostream&
 operator<<(std::ostream& os,
 	   const OpenMTP_IDS& openmtp_ids)
 {
+	if (openmtp_ids.m_fileheader.no_records()
+	    != static_cast<int>(openmtp_ids.m_record.size()) + 1) {
+		throw std::runtime_error("the number of records in the file header is not the number of records");
+	}
+
 	os << openmtp_ids.m_fileheader;
 
 	// the first record was just written..
@@ -77,6 +82,9 @@ operator>>(std::istream& is,
 	if (!is.good()) {
 		throw std::runtime_error("failure while reading file header");
 	}
+	if (openmtp_ids.m_fileheader.no_records() < 1) {
+		throw std::runtime_error("file header with no records");
+	}
 
 	// the first record was just read..
 	const unsigned no_records =
-- 
2.43.0


From 5158e0f387c79afc861f2f86ce3328c2d0345ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 039/138] fix: return the last scan line too among all
 OpenMTP-IDS scan lines

---
 msat/omtp-ids/OpenMTP-IDS.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index 402c017..9bbaacc 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -184,7 +184,7 @@ OpenMTP_IDS::scanline() const
 		last += m_record[i].scanline().size();
 	}
 
-	return scanline(0, last - 1);
+	return scanline(0, last);
 }
 
 // a scanline
-- 
2.43.0


From b6817553c7ff539f07b65ce853cedee56e866426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 040/138] fix: report OpenMTP-IDS files and images that cannot
 be written completely

---
 msat/omtp-ids/OpenMTP-IDS.cc         | 2 +-
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index 9bbaacc..3076b69 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -142,6 +142,7 @@ OpenMTP_IDS::write(const char* filename)
 	}
 
 	os << *this;
+	os.close();
 
 	if (!os.good()) {
 		std::string err;
@@ -150,7 +151,6 @@ OpenMTP_IDS::write(const char* filename)
 		throw std::runtime_error(err);
 	}
 
-	os.close();
 	return true;
 }
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 66e8b4a..0a70d54 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -103,6 +103,9 @@ write_pgm(const char* filename,
 		}
 	}
 	os.close();
+	if (!os.good()) {
+		return false;
+	}
 	std::cout << "wrote " << filename << std::endl;
 	return true;
 }
-- 
2.43.0


From facdd99617901b2a0feb459dcd375d50a07100ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 041/138] fix: set all of the bytes of OpenMTP-IDS header texts

---
 msat/omtp-ids/FileHeader.cc   | 8 ++------
 msat/omtp-ids/RecordHeader.cc | 7 +------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/msat/omtp-ids/FileHeader.cc b/msat/omtp-ids/FileHeader.cc
index 85966d4..8ff1a5a 100644
--- a/msat/omtp-ids/FileHeader.cc
+++ b/msat/omtp-ids/FileHeader.cc
@@ -245,12 +245,7 @@ FileHeader::debug(std::ostream& os) const
 void
 FileHeader::fortran(const char* fortran)
 {
-	const int len = strlen(fortran);
-	const int copy_len = (len <= FORTRAN_LEN)
-		? len
-		: FORTRAN_LEN;
-
-	memcpy(m_fortran, fortran, copy_len);
+	memcpy(m_fortran, fortran, FORTRAN_LEN);
 }
 
 void
@@ -261,5 +256,6 @@ FileHeader::satellite(const char* satellite)
 		? len
 		: SATELLITE_LEN;
 
+	memset(m_satellite, 0, SATELLITE_LEN);
 	memcpy(m_satellite, satellite, copy_len);
 }
diff --git a/msat/omtp-ids/RecordHeader.cc b/msat/omtp-ids/RecordHeader.cc
index 6322ba7..37f4d9d 100644
--- a/msat/omtp-ids/RecordHeader.cc
+++ b/msat/omtp-ids/RecordHeader.cc
@@ -111,10 +111,5 @@ RecordHeader::debug(std::ostream& os) const
 void
 RecordHeader::fortran(const char* fortran)
 {
-	const int len = strlen(fortran);
-	const int copy_len = (len <= FORTRAN_LEN)
-		? len
-		: FORTRAN_LEN;
-
-	memcpy(m_fortran, fortran, copy_len);
+	memcpy(m_fortran, fortran, FORTRAN_LEN);
 }
-- 
2.43.0


From 7e646d5fb5fead82b27f068326b959610d394fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 042/138] fix: report with the exit status whether OpenMTP-IDS
 images are written

---
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 0a70d54..aabb4c1 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -153,11 +153,11 @@ openmtp_ids_to_pgm(const OpenMTP_IDS& omtp_ids)
 
 	bool ret = false;
 
-	ret = write_channel_pgm(fh.vis_id(), omtp_ids);
-	ret = write_channel_pgm(fh.ir_id(),  omtp_ids);
-	ret = write_channel_pgm(fh.wv_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.vis_id(), omtp_ids);
+	ret |= write_channel_pgm(fh.ir_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.wv_id(),  omtp_ids);
 
-	return (! ret);
+	return ret;
 }
 
 // EXTERNAL REFERENCES
-- 
2.43.0


From d0f2a4e7d51362cf01f094ea00548959393cfeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 043/138] fix: refuse to extract sectors that OpenMTP-IDS
 images do not have

---
 tools/omtp-ids/OpenMTP-IDS_sector.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index 706b075..445e7aa 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -54,9 +54,9 @@ static const unsigned PIXEL_1 = (1604 / 2);
 static int
 record_lines(const int lines, const int pixels)
 {
-	return static_cast<int>
+	return std::max(1, static_cast<int>
 		(rint(sqrt((8 * lines)
-			   / static_cast<double>(pixels))));
+			   / static_cast<double>(pixels)))));
 }
 
 static int
@@ -108,6 +108,10 @@ sector_line(ScanLine& line)
 	std::vector<unsigned char>::iterator begin = line.linepixel().begin();
 	std::vector<unsigned char>::iterator end = begin;
 
+	if (line.linepixel().size() < PIXEL_1) {
+		throw std::runtime_error("scan line that ends before the sector");
+	}
+
 	begin += PIXEL_0;
 	end += PIXEL_1;
 
@@ -126,6 +130,10 @@ sector(const OpenMTP_IDS& omtp_ids)
 {
 	std::vector<ScanLine> lines = omtp_ids.scanline(LINE_0, LINE_1);
 
+	if (lines.empty()) {
+		throw std::runtime_error("image that ends before the sector");
+	}
+
 	for_each(lines.begin(), lines.end(), sector_line);
 	return repack(lines);
 }
@@ -176,7 +184,12 @@ main(int argc, char* argv[])
 		return EXIT_FAILURE;
 	}
 
-	if (!openmtp_ids_sector(omtp_ids)) {
+	try {
+		if (!openmtp_ids_sector(omtp_ids)) {
+			return EXIT_FAILURE;
+		}
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From 5799da04323561337fa7c6e2a6659ae4cb4b192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 044/138] fix: report unusable HRI files with exceptions

---
 msat/hri/HRI.cpp                         | 23 ++++++++++++-----------
 msat/hri/HRI_geolocation.h               |  3 ++-
 msat/hri/HRI_image.cpp                   | 23 ++++++++++++-----------
 msat/hri/HRI_subframe_identification.cpp |  5 +++--
 msat/hri/HRI_subframe_label.cpp          |  3 ++-
 5 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c2eca77..56c3559 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -30,6 +30,7 @@
 #include <fstream>
 #include <cstring>
 #include <ctime>
+#include <stdexcept>
 #include <msat/hri/HRI.h>
 
 Hri::Hri( char *hri_filename, bool IS_TECNAVIA )
@@ -46,7 +47,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   if (hri.fail())
   {
     std::cerr << "Cannot open input hri file " << hri_filename << std::endl;
-    throw;
+    throw std::runtime_error("cannot open HRI file");
   }
 
   if (IS_TECNAVIA)
@@ -92,7 +93,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       if (hri.fail())
       {
         std::cerr << "Read failed." << std::endl;
-        return;
+        throw std::runtime_error("HRI file too short");
       }
       memcpy(keybuff, mod_framebuff, 1440-92);
     }
@@ -375,7 +376,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   {
     std::cerr << "Invalid format or non disseminated image : "
               << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid format or non disseminated HRI image");
   }
 
   geo.set_format(format);
@@ -467,7 +468,7 @@ unsigned char * Hri::get_dataline( ifstream &hri, int format )
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI frame format");
   }
   return linebuff;
 }
@@ -484,7 +485,7 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("HRI file too short");
     }
     memcpy(linebuff+1660, mod_framebuff, 840);
   }
@@ -496,14 +497,14 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("HRI file too short");
     }
     memcpy(linebuff+168, mod_framebuff, 1082);
   }
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI frame format");
   }
   return linebuff;
 }
@@ -518,7 +519,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
   if (hri.fail())
   {
     std::cerr << "Read failed." << std::endl;
-    return;
+    throw std::runtime_error("HRI file too short");
   }
 
   memcpy(chk_sync, mod_framebuff+offset, 4);
@@ -528,7 +529,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << mod_framesize << std::endl;
-    throw;
+    throw std::runtime_error("sync error in HRI file");
   }
   return;
 }
@@ -543,7 +544,7 @@ void Hri::getbuff( ifstream &hri )
   if (hri.fail())
   {
     std::cerr << "Read failed." << std::endl;
-    return;
+    throw std::runtime_error("HRI file too short");
   }
   memcpy(chk_sync, framebuff, 4);
   if (chk_sync[0] != 0x0C05 && (chk_sync[1] & 255) != 0xDF)
@@ -551,7 +552,7 @@ void Hri::getbuff( ifstream &hri )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << framesize << std::endl;
-    throw;
+    throw std::runtime_error("sync error in HRI file");
   }
   return;
 }
diff --git a/msat/hri/HRI_geolocation.h b/msat/hri/HRI_geolocation.h
index 043e351..d1e8f2e 100644
--- a/msat/hri/HRI_geolocation.h
+++ b/msat/hri/HRI_geolocation.h
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <string>
 #include <iostream>
+#include <stdexcept>
 
 typedef struct {
   long CFAC;
@@ -77,7 +78,7 @@ class HRI_geolocation {
       {
 	std::cerr << "Unknown or unsupported format in HRI_geolocation"
                   << std::endl;
-	throw;
+	throw std::runtime_error("unknown HRI format");
       }
     }
     geolocation &get_geolocation( ) { return g; }
diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index e92528a..a0b2207 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -31,6 +31,7 @@
 #include <cassert>
 #include <cstring>
 #include <cmath>
+#include <stdexcept>
 
 HRI_image::HRI_image( )
 {
@@ -124,7 +125,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
         default:
 	  std::cerr << "Undefined band for A Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("invalid use of a HRI image");
 	  break;
       }
       break;
@@ -173,7 +174,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for B Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("invalid use of a HRI image");
 	  break;
       }
       break;
@@ -222,13 +223,13 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for X Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("invalid use of a HRI image");
 	  break;
       }
       break;
     default:
       std::cerr << "Undefined format in HRI_image" << std::endl;
-      throw;
+      throw std::runtime_error("invalid use of a HRI image");
   }
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
@@ -244,14 +245,14 @@ void HRI_image::put_line( unsigned char *dataline, int linesize, int linenum )
   {
     std::cerr << "Invalid line size : " << linesize << std::endl;
     std::cerr << "Maximum line size for this image is " << npixels << std::endl;
-    throw;
+    throw std::runtime_error("invalid use of a HRI image");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("invalid use of a HRI image");
   }
   memcpy(data+linenum*npixels, dataline, linesize);
   return;
@@ -266,14 +267,14 @@ void HRI_image::put_halfline( unsigned char *dataline, int linesize,
     std::cerr << "Invalid half line size : " << linesize << std::endl;
     std::cerr << "Maximum half line size for this image is "
               << halflin << std::endl;
-    throw;
+    throw std::runtime_error("invalid use of a HRI image");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("invalid use of a HRI image");
   }
   if (firsthalf)
     memcpy(data+linenum*npixels, dataline, linesize);
@@ -290,7 +291,7 @@ unsigned char * HRI_image::get_line( int linenum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("invalid use of a HRI image");
   }
   memcpy(aline, data+linenum*npixels, npixels);
   return aline;
@@ -314,14 +315,14 @@ unsigned char HRI_image::get_pixel( int linenum, int pixelnum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("invalid use of a HRI image");
   }
   if (pixelnum < 0 || pixelnum > lastpix)
   {
     std::cerr << "Out of range pixel number : " << pixelnum  << std::endl;
     std::cerr << "Maximum pixel number for this image is "
               << lastpix << std::endl;
-    throw;
+    throw std::runtime_error("invalid use of a HRI image");
   }
   return *(data+linenum*npixels+pixelnum);
 }
diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index f8aa79d..3196493 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -30,6 +30,7 @@
 #include <cstring>
 #include <ctime>
 #include <cstdio>
+#include <stdexcept>
 
 HRI_subframe_identification::HRI_subframe_identification( char *hsi )
 {
@@ -66,7 +67,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
       std::cerr << "Unknown satellite id : " << std::hex
            << satellite_indicator[0] << satellite_indicator[1]
            << std::dec << std::endl;
-      throw;
+      throw std::runtime_error("unknown satellite in a HRI file");
     }
   }
   else
@@ -74,7 +75,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
     std::cerr << "Unknown satellite id : " << std::hex
          << satellite_indicator[0] << satellite_indicator[1]
          << std::dec << std::endl;
-    throw;
+    throw std::runtime_error("unknown satellite in a HRI file");
   }
 
   year = (int) conv.i2_from_buff((const unsigned char *) hsi+2);
diff --git a/msat/hri/HRI_subframe_label.cpp b/msat/hri/HRI_subframe_label.cpp
index 54b5015..cb7d005 100644
--- a/msat/hri/HRI_subframe_label.cpp
+++ b/msat/hri/HRI_subframe_label.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <msat/hri/HRI_subframe_label.h>
 #include <string>
+#include <stdexcept>
 
 HRI_subframe_label::HRI_subframe_label( char hsl[24] )
 {
@@ -204,7 +205,7 @@ std::string HRI_subframe_label::format_code( )
   else
   {
     std::cerr << "Unknown format code in HRI read" << std::endl;
-    throw;
+    throw std::runtime_error("unknown format code in a HRI file");
   }
 
   if (is_IR_present( )) tmp += "I";
-- 
2.43.0


From 51d189419c530a90041f4496ad9cde4dde2ea0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 045/138] fix: detect HRI frames out of sync or of another
 format

---
 msat/hri/HRI.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 56c3559..f35d216 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -120,6 +120,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   }
 
   std::string format = label.format_code( );
+  if ((id == HRI_A_FORMAT) != label.is_A_format( ))
+    throw std::runtime_error("the frames of the HRI file are not of its format");
   calibration_coefficients coeff;
 
   cout << "Format is : " << format << std::endl;
@@ -524,7 +526,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
 
   memcpy(chk_sync, mod_framebuff+offset, 4);
 
-  if (chk_sync[0] != 0x0C05 && (chk_sync[1] & 255) != 0xDF)
+  if (chk_sync[0] != 0x0C05 || (chk_sync[1] & 255) != 0xDF)
   {
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
@@ -547,7 +549,7 @@ void Hri::getbuff( ifstream &hri )
     throw std::runtime_error("HRI file too short");
   }
   memcpy(chk_sync, framebuff, 4);
-  if (chk_sync[0] != 0x0C05 && (chk_sync[1] & 255) != 0xDF)
+  if (chk_sync[0] != 0x0C05 || (chk_sync[1] & 255) != 0xDF)
   {
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
-- 
2.43.0


From c3e00c49d01714d0a41abdc1897e9395ec8ae8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 046/138] fix: read the floating point numbers of HRI files on
 64-bit systems

---
 msat/hri/HRI_machine.cpp | 42 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/msat/hri/HRI_machine.cpp b/msat/hri/HRI_machine.cpp
index c021e33..cdbe726 100644
--- a/msat/hri/HRI_machine.cpp
+++ b/msat/hri/HRI_machine.cpp
@@ -141,9 +141,9 @@ float HRI_machine::r4f_from_char5( const char *buff )
   return tmp;
 }
 
-static inline void leftshift(unsigned long *pnt, int n)
+static inline void leftshift(uint32_t *pnt, int n)
 {
-   register unsigned long hiw, low;
+   register uint32_t hiw, low;
 
    hiw = pnt[0];
    low = pnt[1];
@@ -159,9 +159,9 @@ static inline void leftshift(unsigned long *pnt, int n)
    return;
 }
 
-static inline void rightshift(unsigned long *pnt, int n)
+static inline void rightshift(uint32_t *pnt, int n)
 {
-   register unsigned long hiw, low;
+   register uint32_t hiw, low;
 
    hiw = pnt[0];
    low = pnt[1];
@@ -183,26 +183,29 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
         uint32_t i;
         float f;
     } uval;
-    unsigned long *pnt, sign, fraction;
+    uint32_t *pnt, sign, fraction;
     long exponent;
-    unsigned char swp[4];
+    alignas(uint32_t) unsigned char swp[4];
 
    if (isbig)
-     pnt = (unsigned long *) buff;
+     pnt = (uint32_t *) buff;
    else
    {
      swp[3] = buff[0];
      swp[2] = buff[1];
      swp[1] = buff[2];
      swp[0] = buff[3];
-     pnt = (unsigned long *) swp;
+     pnt = (uint32_t *) swp;
    }
 
-   if ((pnt[0] & 0x7FFFFFFF) == 0)
-      return *((float *) pnt);
+   if ((pnt[0] & 0x00FFFFFF) == 0)
+   {
+      uval.i = pnt[0] & 0x80000000;
+      return uval.f;
+   }
 
    sign     =   pnt[0] & 0x80000000;
-   exponent = ((pnt[0] & 0x7F000000) >> 24) - 64;
+   exponent = (long) ((pnt[0] & 0x7F000000) >> 24) - 64;
    fraction =   pnt[0] & 0x00FFFFFF;
 
    if (exponent >= 0)
@@ -234,16 +237,16 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
 double HRI_machine::r8_from_buff( const unsigned char *buff )
 {
     int idxh, idxl;
-    unsigned long tmp, sign, fraction[2], *pnt;
+    uint32_t tmp, sign, fraction[2], *pnt;
     union {
         uint32_t i[2];
         double d;
     } uval;
     long exponent;
-    unsigned char swp[8];
+    alignas(uint32_t) unsigned char swp[8];
 
    if (isbig)
-     pnt = (unsigned long *) buff;
+     pnt = (uint32_t *) buff;
    else
    {
      swp[3] = buff[0];
@@ -254,22 +257,22 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
      swp[6] = buff[5];
      swp[5] = buff[6];
      swp[4] = buff[7];
-     pnt = (unsigned long *) swp;
+     pnt = (uint32_t *) swp;
    }
 
    if (isbig) { idxl = 0; idxh = 1; }
    else       { idxl = 1; idxh = 0; }
 
    tmp = pnt[0];
-   if ((tmp & 0x7FFFFFFF) == 0)
+   if ((tmp & 0x00FFFFFF) == 0 && pnt[1] == 0)
    {
-     uval.i[idxl] = pnt[0];
-     uval.i[idxh] = pnt[1];
+     uval.i[idxl] = tmp & 0x80000000;
+     uval.i[idxh] = 0;
      return uval.d;
    }
 
    sign        = pnt[0] & 0x80000000;
-   exponent    = ((pnt[0] & 0x7F000000) >> 24) - 64;
+   exponent    = (long) ((pnt[0] & 0x7F000000) >> 24) - 64;
    fraction[0] = pnt[0] & 0x00FFFFFF;
    fraction[1] = pnt[1];
 
@@ -278,7 +281,6 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
    else
       exponent = -((-exponent) << 2);
 
-   if (fraction[0])
    {
       while ((fraction[0] & 0x01000000) == 0)
       {
-- 
2.43.0


From 987b5f8b2fd3845a180efb0ad64e7e4498229894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 047/138] fix: read the space count of the western IR part of
 HRI files at its place

---
 msat/hri/HRI_subframe_interpretation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_interpretation.cpp b/msat/hri/HRI_subframe_interpretation.cpp
index 0cb44c9..68b6a82 100644
--- a/msat/hri/HRI_subframe_interpretation.cpp
+++ b/msat/hri/HRI_subframe_interpretation.cpp
@@ -163,7 +163,7 @@ void HRI_subframe_interpretation::readfrom( char *hsi )
   imag.snmxep_v1 = conv.i2_from_buff((const unsigned char *) hsi+458);
   imag.snmxep_v2 = conv.i2_from_buff((const unsigned char *) hsi+460);
   imag.snmxep_wv = conv.i2_from_buff((const unsigned char *) hsi+462);
-  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+466);
+  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+464);
   imag.snmxwp_v1 = conv.i2_from_buff((const unsigned char *) hsi+466);
   imag.snmxwp_v2 = conv.i2_from_buff((const unsigned char *) hsi+468);
   imag.snmxwp_wv = conv.i2_from_buff((const unsigned char *) hsi+470);
-- 
2.43.0


From f32e5a8c8bf11bec6520204a3b62299ea0ee60af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 048/138] fix: print the values of HRI files under their names

---
 msat/hri/HRI_subframe_interpretation.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/msat/hri/HRI_subframe_interpretation.h b/msat/hri/HRI_subframe_interpretation.h
index 7afb3d4..d5ea48b 100644
--- a/msat/hri/HRI_subframe_interpretation.h
+++ b/msat/hri/HRI_subframe_interpretation.h
@@ -30,7 +30,9 @@
 #define __HRI_SUBFRAME_INTERPRETATION_H__
 
 #include <msat/hri/HRI_machine.h>
+#include <cstring>
 #include <iostream>
+#include <string>
 
 typedef struct {
   float bbc1ir;
@@ -309,7 +311,7 @@ class HRI_subframe_interpretation {
          << "Completion of rectification    "
 	 << i.imag.imstat_10 << std::endl
          << "Completion of amplitude proc.  "
-	 << i.imag.imstat_10 << std::endl
+	 << i.imag.imstat_11 << std::endl
          << "Southern line                : "
 	 << i.imag.limhor_1 << std::endl
          << "Southern line, first pixel   : "
@@ -433,7 +435,7 @@ class HRI_subframe_interpretation {
          << "Max space count east V1      : "
 	 << i.imag.snmxep_v1 << std::endl
          << "Max space count east V2      : "
-	 << i.imag.snmxwp_v2 << std::endl
+	 << i.imag.snmxep_v2 << std::endl
          << "Max space count west IR      : "
 	 << i.imag.snmxwp_ir << std::endl 
          << "Max space count west WV      : "
@@ -441,11 +443,12 @@ class HRI_subframe_interpretation {
          << "Max space count west V1      : "
 	 << i.imag.snmxwp_v1 << std::endl
          << "Max space count west V2      : "
-	 << i.imag.snmxep_v2 << std::endl
+	 << i.imag.snmxwp_v2 << std::endl
 	 << "-----------------------------" << std::endl
 	 << "- Administrative Messages   -" << std::endl
 	 << "-----------------------------" << std::endl
-	 << i.mesg.admin_message << std::endl
+	 << std::string(i.mesg.admin_message,
+	                strnlen(i.mesg.admin_message, 800)) << std::endl
 	 << "-----------------------------" << std::endl;
       return os;
     }
-- 
2.43.0


From 41a23b51f1c1cb96f2477ff91ad4e6fbd045d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 049/138] fix: read the keys of HRI files of Tecnavia stations

---
 msat/hri/HRI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index f35d216..b7cb656 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -95,7 +95,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
         std::cerr << "Read failed." << std::endl;
         throw std::runtime_error("HRI file too short");
       }
-      memcpy(keybuff, mod_framebuff, 1440-92);
+      memcpy(keybuff + 92, mod_framebuff, 1440-92);
     }
     else
     {
@@ -107,8 +107,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       memcpy(keybuff+720, framebuff + 4, 360);
       getbuff(hri);
       memcpy(keybuff+1080, framebuff + 4, 360);
-      keys.readfrom(keybuff);
     }
+    keys.readfrom(keybuff);
   }
 
   if (false)
-- 
2.43.0


From b690cec78e7f90b7aa63df1095614c467eb2506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 050/138] fix: calibrate the water vapour of HRI X format
 images with their coefficients

---
 msat/hri/HRI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index b7cb656..c15dcdb 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -122,7 +122,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   std::string format = label.format_code( );
   if ((id == HRI_A_FORMAT) != label.is_A_format( ))
     throw std::runtime_error("the frames of the HRI file are not of its format");
-  calibration_coefficients coeff;
+  calibration_coefficients coeff = { 0, 0 };
 
   cout << "Format is : " << format << std::endl;
 
@@ -349,6 +349,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       for (int i = 0; i < image[0].nlines; i ++)
         image[0].put_line(get_dataline(hri, id), image[0].npixels, i); 
     }
+    coeff.mpef_absolute = interp.cal.calwv;
+    coeff.space_count   = interp.cal.wvspc;
     image[0].set_calibration(&coeff);
   }
   else if (format == "XVH")
-- 
2.43.0


From 522b19d67f30b8010338b74d22a12aee1009a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 051/138] fix: do not lose, share or leave unset the memory of
 HRI images

---
 msat/hri/HRI_image.cpp | 8 +++++++-
 msat/hri/HRI_image.h   | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index a0b2207..bdb6c96 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -50,6 +50,9 @@ HRI_image::HRI_image( HRI_image_satellite s,
                       HRI_image_format f,
 		      HRI_image_band b )
 {
+  data = 0;
+  aline = 0;
+  size = 0;
   set_format_band(s, f, b);
 }
 
@@ -231,7 +234,10 @@ void HRI_image::set_format_band( HRI_image_satellite s,
       std::cerr << "Undefined format in HRI_image" << std::endl;
       throw std::runtime_error("invalid use of a HRI image");
   }
-  data  = new unsigned char[size];
+  calibrated = false;
+  if (data)  delete [ ] data;
+  if (aline) delete [ ] aline;
+  data  = new unsigned char[size]();
   aline = new unsigned char[npixels];
   assert(data);
   assert(aline);
diff --git a/msat/hri/HRI_image.h b/msat/hri/HRI_image.h
index 1f70ce9..8803a4c 100644
--- a/msat/hri/HRI_image.h
+++ b/msat/hri/HRI_image.h
@@ -63,6 +63,8 @@ class HRI_image {
   public:
     HRI_image( );
     HRI_image( HRI_image_satellite s, HRI_image_format f, HRI_image_band b );
+    HRI_image( const HRI_image & ) = delete;
+    HRI_image &operator=( const HRI_image & ) = delete;
     ~HRI_image( );
     void set_format_band( HRI_image_satellite s,
 	                  HRI_image_format f,
-- 
2.43.0


From aa591af111248e7fe32ebcc4d0660f848522a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 052/138] fix: do not return freed memory as the format of HRI
 files

---
 msat/hri/HRI.cpp | 3 ++-
 msat/hri/HRI.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c15dcdb..2539d9c 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -389,7 +389,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
 
 char * Hri::get_format( )
 {
-  return (char *) label.format_code( ).c_str( );
+  format_name = label.format_code( );
+  return (char *) format_name.c_str( );
 }
 
 struct tm *Hri::get_datetime( )
diff --git a/msat/hri/HRI.h b/msat/hri/HRI.h
index 3de761a..6d589f8 100644
--- a/msat/hri/HRI.h
+++ b/msat/hri/HRI.h
@@ -96,6 +96,7 @@ class Hri {
     static const int HRI_BX_FORMAT = 48;
     char mod_framebuff[mod_framesize];
     char framebuff[framesize];
+    std::string format_name;
     HRI_subframe_label label;
     HRI_subframe_identification ident;
     HRI_subframe_interpretation interp;
-- 
2.43.0


From bc81ceba1a27cbfbcf98c1c973928e3d1e575e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 053/138] fix: read the dates of HRI files in any time zone and
 with their day of the week

---
 msat/hri/HRI_subframe_identification.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index 3196493..2035799 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -84,7 +84,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_year = year-1900;
   tmtime.tm_mday = 1;
   tmtime.tm_hour = 12;
-  jtime = mktime(&tmtime) + (julian_day - 1) * 24 * 60 * 60;
+  jtime = timegm(&tmtime) + (julian_day - 1) * 24 * 60 * 60;
   tm1time = gmtime(&jtime);
   month = tm1time->tm_mon + 1;
   day   = tm1time->tm_mday;
@@ -100,6 +100,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_hour = hour;
   tmtime.tm_min  = minute;
 
+  timegm(&tmtime);
   datetime = asctime(&tmtime);
 
   column_offset = conv.i2_from_buff((const unsigned char *) hsi+20);
-- 
2.43.0


From 4e1c5aeca6028fc17120ce7ebdb631c71b7446f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 054/138] fix: stretch grey images between their real minimum
 and maximum, whatever the pixel type and missing value

---
 tools/image.cpp | 42 ++++++++++++++++++++++++------------------
 tools/image.h   |  4 ++--
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/tools/image.cpp b/tools/image.cpp
index 4a0e0b9..d7dedfe 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -1,5 +1,6 @@
 #include "msat/gdal/clean_gdal_priv.h"
 #include "image.h"
+#include <cmath>
 #include <cstdint>
 #include "config.h"
 #include <Magick++.h>
@@ -9,7 +10,7 @@ using namespace std;
 namespace msat {
 
 template<typename T>
-void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T& vmax)
+void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, double& vmin, double& vmax)
 {
   if (!compute)
   {
@@ -20,18 +21,21 @@ void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T&
 
   size_t sx = band.GetXSize();
   size_t sy = band.GetYSize();
-  T missing = (T)band.GetNoDataValue();
+  int has_missing = FALSE;
+  double missing = band.GetNoDataValue(&has_missing);
 
   // Compute min and max values
-  vmin = missing;
-  vmax = missing;
+  bool found = false;
+  vmin = vmax = has_missing ? missing : 0;
   for (size_t i = 0; i < sx*sy; ++i)
   {
-    if (vals[i] == missing) continue;
-    if (vmin == missing)
+    if (has_missing && vals[i] == missing) continue;
+    if (std::isnan((double)vals[i])) continue;
+    if (!found)
     {
       // First time we find a good value, init min and max with it
       vmin = vmax = vals[i];
+      found = true;
       continue;
     }
     if (vals[i] < vmin) vmin = vals[i];
@@ -40,7 +44,7 @@ void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T&
 }
 
 template<typename T>
-uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax)
+uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, double vmin, double vmax)
 {
   size_t sx = band.GetXSize();
   size_t sy = band.GetYSize();
@@ -48,15 +52,15 @@ uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax)
   if (vmax == vmin)
   {
       for (size_t i = 0; i < sx * sy; ++i)
-          res8[i] = vmin;
+          res8[i] = vmin > 255 ? 255 : vmin > 0 ? vmin : 0;
   }
   else
   {
       for (size_t i = 0; i < sx * sy; ++i)
       {
-        if (vals[i] < vmin)
+        if (vals[i] < vmin || std::isnan((double)vals[i]))
           res8[i] = 0;
-        else if (vals[i] > vmax)
+        else if (vals[i] >= vmax)
           res8[i] = 255;
         else
           res8[i] = (vals[i] - vmin) * 255 / (vmax - vmin);
@@ -85,8 +89,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            uint8_t vmin;
-            uint8_t vmax;
+            double vmin;
+            double vmax;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
@@ -106,8 +110,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            uint16_t vmin;
-            uint16_t vmax;
+            double vmin;
+            double vmax;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
@@ -119,16 +123,16 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             break;
         }
         default: {
-            float* res = new float[tx * ty];
-            if (band.RasterIO(GF_Read, 0, 0, sx, sy, res, tx, ty, GDT_Float32, 0, 0) != CE_None)
+            double* res = new double[tx * ty];
+            if (band.RasterIO(GF_Read, 0, 0, sx, sy, res, tx, ty, GDT_Float64, 0, 0) != CE_None)
             {
                 delete[] res;
                 return std::unique_ptr<Magick::Image>();
             }
 
             // Compute min and max values
-            float vmin = 0;
-            float vmax = 0;
+            double vmin = 0;
+            double vmax = 0;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
@@ -157,6 +161,8 @@ bool export_image(GDALRasterBand* band, const std::string& fileName, Stretch& s)
 
     unique_ptr<Magick::Image> image = imageToMagick(*band, s);
 
+    if (image.get() == 0) return false;
+
     // p.activity("Writing image to file");
     image->write(fileName);
     return true;
diff --git a/tools/image.h b/tools/image.h
index b017af3..7e4b942 100644
--- a/tools/image.h
+++ b/tools/image.h
@@ -39,10 +39,10 @@ struct Stretch
     Stretch() : compute(true) {}
 
     template<typename T>
-    void compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T& vmax);
+    void compute_if_needed(GDALRasterBand& band, const T* vals, double& vmin, double& vmax);
 
     template<typename T>
-    uint8_t* rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax);
+    uint8_t* rescale(GDALRasterBand& band, const T* vals, double vmin, double vmax);
 };
 
 /// Export data from an ImageData to an image file
-- 
2.43.0


From 23f4340513cf2139db72bacc46770de712204716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 055/138] fix: report images that cannot be cropped or opened
 instead of crashing

---
 tools/msat.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 9f3ab6d..1706fc7 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -664,11 +664,21 @@ int Msat::main()
             scale_if_needed(*dataset);
 
             GDALDataset* vds = translate.translate(dataset.get());
+            if (vds == NULL)
+            {
+                    cerr << CPLGetLastErrorMsg() << endl;
+                    return 1;
+            }
             //translate.dump(cerr);
 
             if (!mdtemplate.empty())
             {
                     unique_ptr<GDALDataset> mdds((GDALDataset*)GDALOpen(mdtemplate.c_str(), GA_ReadOnly));
+                    if (mdds.get() == NULL)
+                    {
+                            cerr << CPLGetLastErrorMsg() << endl;
+                            return 1;
+                    }
 
                     // Copy metadata from mdds to vds
                     vds->SetDescription(mdds->GetDescription());
-- 
2.43.0


From ea46f5bf98b460a1d275eef5788175e5e393b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 056/138] fix: destroy calibrated datasets before the datasets
 they read

---
 tools/msat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 1706fc7..e80e99b 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -563,6 +563,8 @@ int Msat::main()
 {
     for (vector<string>::const_iterator i = input_files.begin(); i != input_files.end(); ++i)
     {
+            // Declared first, because the calibrated dataset needs it until its end
+            unique_ptr<GDALDataset> ds_orig;
             unique_ptr<GDALDataset> dataset((GDALDataset*)GDALOpen(i->c_str(), GA_ReadOnly));
             if (dataset.get() == NULL)
             {
@@ -570,7 +572,6 @@ int Msat::main()
                     return 1;
             }
 
-            unique_ptr<GDALDataset> ds_orig;
             if (force_calibration)
             {
                 ds_orig = move(dataset);
-- 
2.43.0


From 5a798e3ca1a9b2654b0438c944863d7107eec99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 057/138] fix: take the area of --around in degrees also for
 projected images

---
 tools/msat.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index e80e99b..c549425 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -446,17 +446,17 @@ void Msat::parse_cmdline(int argc, char* argv[])
                             has_size = true;
                             break;
                     case 'C': { // --around
-                            double lat, lon, h, w;
-                            if (sscanf(optarg, "%lf,%lf,%lf,%lf", &lat,&lon,&h,&w) != 4)
+                            double clat, clon, h, w;
+                            if (sscanf(optarg, "%lf,%lf,%lf,%lf", &clat,&clon,&h,&w) != 4)
                             {
                                     cerr << "around value should be in the format lat,lon,lath,lonw" << endl;
                                     do_help(argv[0], cerr);
                                     exit(1);
                             }
-                            translate.dfLRY = lat - h/2;
-                            translate.dfULY = lat + h/2;
-                            translate.dfULX = lon - w/2;
-                            translate.dfLRX = lon + w/2;
+                            lat[0] = clat - h/2;
+                            lat[1] = clat + h/2;
+                            lon[0] = clon - w/2;
+                            lon[1] = clon + w/2;
                             has_size = true;
                             break;
                     }
-- 
2.43.0


From d0285db457796ab1606a414e8cf839e147ebb076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 058/138] fix: cap the size of each displayed image on its own

---
 tools/msat.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index c549425..7ef806d 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -341,6 +341,9 @@ struct Msat
         size_t sy = ds.GetRasterYSize();
         size_t tx = sx;
         size_t ty = sy;
+        // Forget the size of the previous image
+        if (maxx != 0 || maxy != 0)
+            translate.pszOXSize = translate.pszOYSize = NULL;
         if (maxx != 0 && tx > maxx)
         {
                 ty = ty * maxx / tx;
@@ -351,8 +354,10 @@ struct Msat
                 tx = tx * maxy / ty;
                 ty = maxy;
         }
-        if (tx != sx && ty != sy)
+        if (tx != sx || ty != sy)
         {
+            if (tx == 0) tx = 1;
+            if (ty == 0) ty = 1;
             cerr << "Note: image scaled down to " << tx << "x" << ty << " to prevent excessive memory usage." << endl;
             cerr << "      you can set one of --area, --Area, --around, or --resize to prevent this." << endl;
             char buf[16];
-- 
2.43.0


From c4acca97aee727b70bdd6fffe381a53055c42652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 059/138] fix: do not take band numbers that do not exist for
 others

---
 tools/msat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 7ef806d..d495aad 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -598,7 +598,7 @@ int Msat::main()
                     if (endptr - sptr == (signed)bi->size())
                     {
                         // If it is an integer, use it literally
-                        bands[band_count++] = idx;
+                        bands[band_count++] = idx <= (unsigned long)dataset->GetRasterCount() ? idx : 0;
                     } else {
                         // If it is a string, remove leading bang (if any)
                         // and lookup in raster band descriptions
@@ -617,6 +617,7 @@ int Msat::main()
                     continue;
                 }
 
+                CPLFree(translate.panBandList);
                 translate.panBandList = bands;
                 translate.nBandCount = band_count;
                 translate.bDefBands = TRUE;
-- 
2.43.0


From b450e89f997ab2fb2d153d14fb7131ad2afc3495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 060/138] fix: do not overwrite the files read with --copymd

---
 tools/msat.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index d495aad..b922add 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -687,8 +687,19 @@ int Msat::main()
                             return 1;
                     }
 
-                    // Copy metadata from mdds to vds
-                    vds->SetDescription(mdds->GetDescription());
+                    // Amend a copy, so that the metadata of the source are
+                    // left as they are
+                    if (vds == dataset.get())
+                        vds = (GDALDataset*)GDALCreateCopy(GDALGetDriverByName("VRT"), "", dataset.get(), FALSE, NULL, NULL, NULL);
+                    if (vds == NULL)
+                    {
+                            cerr << CPLGetLastErrorMsg() << endl;
+                            return 1;
+                    }
+
+                    // Copy metadata from mdds to vds. The description of vds
+                    // stays empty: virtual datasets are saved on the file
+                    // that it names
                     vds->SetMetadata(mdds->GetMetadata());
 
                     // Copy raster band metadata from mdds to vds
-- 
2.43.0


From 3509a9827c4b2f7d34ccef45aabd80e72f214301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 061/138] fix: do not read before the components of relative
 paths that start with ..

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index d5486cb..4e3ee34 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -183,7 +183,7 @@ std::string normpath(const std::string& pathname)
     {
         if (i == "." || i.empty()) continue;
         if (i == "..")
-            if (st.back() == "..")
+            if (st.empty() || st.back() == "..")
                 st.emplace_back(i);
             else if (st.back() == "/")
                 continue;
-- 
2.43.0


From d4a4c185e26ee02b9eb568bbe988cad6989ef4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 062/138] fix: decode hexadecimal escapes of C strings

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 4e3ee34..5055f0b 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -389,7 +389,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                               for (j = 0; j < 2 && i+2+j != str.end() && isxdigit(*(i+2+j)); ++j)
                                   buf[2+j] = *(i+2+j);
                               i += j;
-                              res += static_cast<char>(atoi(buf));
+                              res += static_cast<char>(strtoul(buf, nullptr, 16));
                               break;
                           }
                 default:
-- 
2.43.0


From 5aee4bc3166c518d660b991179b7e0099650cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 063/138] fix: ignore a partial escape also in URLs of a single
 character

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 5055f0b..f65b11c 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -431,7 +431,7 @@ std::string decode_url(const std::string& str)
         if (str[i] == '%')
         {
             // If there's a partial %something at the end, ignore it
-            if (i >= str.size() - 2)
+            if (i + 2 >= str.size())
                 return res;
             res += static_cast<char>(strtoul(str.substr(i+1, 2).c_str(), nullptr, 16));
             i += 2;
-- 
2.43.0


From bb86da6d40092dcfe1ded2fe4fac8ba44ed5c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 064/138] fix: do not read past the table of base64 digits

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index f65b11c..cffdcf9 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -449,7 +449,7 @@ static char invbase64(const T& idx)
 {
     static const char data[] = {62,0,0,0,63,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,0,0,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
     if (idx < 43) return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data)/sizeof(data[0]))) return 0;
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data)/sizeof(data[0]))) return 0;
     return data[idx - 43];
 }
 
-- 
2.43.0


From 2aa5762a3e3c03977d60a422d3b608cabaf862b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 065/138] fix: do not hang on or return empty tokens when
 splitting by characters or skipping them

---
 msat/utils/string.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index cffdcf9..cb5a84a 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -235,7 +235,7 @@ void Split::const_iterator::skip_separators()
     const std::string& str = split->str;
     const std::string& sep = split->sep;
 
-    while (end + sep.size() <= str.size())
+    while (!sep.empty() && end + sep.size() <= str.size())
     {
         unsigned i = 0;
         for ( ; i < sep.size(); ++i)
@@ -267,6 +267,11 @@ Split::const_iterator& Split::const_iterator::operator++()
     /// return it
     if (end == str.size())
     {
+        if (skip_empty || sep.empty())
+        {
+            split = nullptr;
+            return *this;
+        }
         cur = string();
         end = std::string::npos;
         return *this;
-- 
2.43.0


From 54607c39fc955b72e1a1e7e28d3adde09f1f9b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 066/138] fix: do not compare the empty key with unused entries
 of dictionaries

---
 msat/iniparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index 9625def..fc303a7 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -339,7 +339,7 @@ static char * dictionary_get(dictionary * d, char * key, char * def)
 
     hash = dictionary_hash(key);
     for (i=0 ; i<d->size ; i++) {
-        if (d->key==NULL)
+        if (d->key[i]==NULL)
             continue ;
         /* Compare hash */
         if (hash==d->hash[i]) {
-- 
2.43.0


From 5b925c0f81d0acbcb50d4327f1afc1545ece34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 067/138] fix: do not convert entries without a value to
 numbers

---
 msat/iniparser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index fc303a7..b03d333 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -755,7 +755,7 @@ int iniparser_getint(dictionary * d, char * key, int notfound)
     char    *   str ;
 
     str = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (str==INI_INVALID_KEY) return notfound ;
+    if (str==INI_INVALID_KEY || str==NULL) return notfound ;
     return atoi(str);
 }
 
@@ -778,7 +778,7 @@ double iniparser_getdouble(dictionary * d, char * key, double notfound)
     char    *   str ;
 
     str = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (str==INI_INVALID_KEY) return notfound ;
+    if (str==INI_INVALID_KEY || str==NULL) return notfound ;
     return atof(str);
 }
 
@@ -822,7 +822,7 @@ int iniparser_getboolean(dictionary * d, char * key, int notfound)
     int         ret ;
 
     c = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (c==INI_INVALID_KEY) return notfound ;
+    if (c==INI_INVALID_KEY || c==NULL) return notfound ;
     if (c[0]=='y' || c[0]=='Y' || c[0]=='1' || c[0]=='t' || c[0]=='T') {
         ret = 1 ;
     } else if (c[0]=='n' || c[0]=='N' || c[0]=='0' || c[0]=='f' || c[0]=='F') {
-- 
2.43.0


From fd08ccd97c93af9d3192b3ded475db1d36c0b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 068/138] fix: load empty values also when something follows
 the quotes

---
 msat/iniparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index b03d333..fb1c912 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -952,10 +952,9 @@ dictionary * iniparser_new(char *ininame)
                  * sscanf cannot handle "" or '' as empty value,
                  * this is done here
                  */
+                strcpy(val, strcrop(val));
                 if (!strcmp(val, "\"\"") || !strcmp(val, "''")) {
                     val[0] = (char)0;
-                } else {
-                    strcpy(val, strcrop(val));
                 }
                 iniparser_add_entry(d, sec, key, val);
             }
-- 
2.43.0


From 29662043d8a2ef394d2ae2f1060683767a027234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 069/138] fix: find entries with long names and do not overrun
 the stack when dumping them

---
 msat/iniparser.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index fb1c912..f44e5a3 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -57,17 +57,17 @@ extern "C" {
 
 static char * strlwc(char * s)
 {
-    static char l[ASCIILINESZ+1];
+    static char l[2*ASCIILINESZ+1]; /* a section and a key */
     int i ;
 
     if (s==NULL) return NULL ;
-    memset(l, 0, ASCIILINESZ+1);
+    memset(l, 0, 2*ASCIILINESZ+1);
     i=0 ;
-    while (s[i] && i<ASCIILINESZ) {
+    while (s[i] && i<2*ASCIILINESZ) {
         l[i] = (char)tolower((int)s[i]);
         i++ ;
     }
-    l[ASCIILINESZ]=(char)0;
+    l[2*ASCIILINESZ]=(char)0;
     return l ;
 }
 
@@ -645,7 +645,7 @@ void iniparser_dump(dictionary * d, FILE * f)
 void iniparser_dump_ini(dictionary * d, FILE * f)
 {
     int     i, j ;
-    char    keym[ASCIILINESZ+1];
+    char    keym[2*ASCIILINESZ+2];
     int     nsec ;
     char *  secname ;
     int     seclen ;
-- 
2.43.0


From 4efc4666351c08cb780244b80ba87701eba155a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 070/138] fix: save empty, quoted and section-less INI entries
 so that they are loaded again

---
 msat/iniparser.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index f44e5a3..2a1bb6d 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -630,6 +630,17 @@ void iniparser_dump(dictionary * d, FILE * f)
 }
 
 
+/* Private: print an entry so that it can be loaded again */
+static void dump_entry(FILE * f, char * key, char * val)
+{
+    const char * quote = "" ;
+
+    /* Quote what would not be read back as it is */
+    if (val && (!val[0] || isspace((int)val[0]) || val[0]=='"' || val[0]=='\'' || strpbrk(val, ";#")))
+        quote = strchr(val, '"') ? "'" : "\"" ;
+    fprintf(f, "%-30s = %s%s%s\n", key, quote, val ? val : "", quote);
+}
+
 /*-------------------------------------------------------------------------*/
 /**
   @brief    Save a dictionary to a loadable ini file
@@ -658,10 +669,15 @@ void iniparser_dump_ini(dictionary * d, FILE * f)
         for (i=0 ; i<d->size ; i++) {
             if (d->key[i]==NULL)
                 continue ;
-            fprintf(f, "%s = %s\n", d->key[i], d->val[i]);
+            dump_entry(f, d->key[i][0]==':' ? d->key[i]+1 : d->key[i], d->val[i]);
         }
         return ;
     }
+    /* Keys outside of any section */
+    for (i=0 ; i<d->size ; i++) {
+        if (d->key[i]!=NULL && d->key[i][0]==':')
+            dump_entry(f, d->key[i]+1, d->val[i]);
+    }
     for (i=0 ; i<nsec ; i++) {
         secname = iniparser_getsecname(d, i) ;
         seclen  = (int)strlen(secname);
@@ -671,10 +687,7 @@ void iniparser_dump_ini(dictionary * d, FILE * f)
             if (d->key[j]==NULL)
                 continue ;
             if (!strncmp(d->key[j], keym, seclen+1)) {
-                fprintf(f,
-                        "%-30s = %s\n",
-                        d->key[j]+seclen+1,
-                        d->val[j] ? d->val[j] : "");
+                dump_entry(f, d->key[j]+seclen+1, d->val[j]);
             }
         }
     }
-- 
2.43.0


From c9c6a9b31af1685d8a2987f60f8f999079da216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 071/138] fix: allow to assign to, and unmap twice, empty
 memory maps

---
 msat/utils/sys.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index c1161a6..4a39679 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -259,6 +259,7 @@ MMap::~MMap()
 
 void MMap::munmap()
 {
+    if (addr == MAP_FAILED) return;
     if (::munmap(addr, length) == -1)
         throw std::system_error(errno, std::system_category(), "cannot unmap memory");
     addr = MAP_FAILED;
-- 
2.43.0


From d3bd24d17859c334d6c177f80dd40194c2ab92a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 072/138] fix: keep the directory of moved directory iterators

---
 msat/utils/sys.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.h b/msat/utils/sys.h
index 4289bc6..7c38dfd 100644
--- a/msat/utils/sys.h
+++ b/msat/utils/sys.h
@@ -420,8 +420,9 @@ struct Path : public ManagedNamedFileDescriptor
         explicit iterator(Path& dir);
         iterator(iterator&) = delete;
         iterator(iterator&& o)
-            : dir(o.dir), cur_entry(o.cur_entry)
+            : path(o.path), dir(o.dir), cur_entry(o.cur_entry)
         {
+            o.path = nullptr;
             o.dir = nullptr;
             o.cur_entry = nullptr;
         }
-- 
2.43.0


From 23df4734f8813178cf46c1538929b37cfd933608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 073/138] fix: do not take links for what they point to on file
 systems without entry types

---
 msat/utils/sys.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 4a39679..c22d5c2 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -767,7 +767,7 @@ bool Path::iterator::isdir() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISDIR(st.st_mode);
 }
 
@@ -781,7 +781,7 @@ bool Path::iterator::isblk() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISBLK(st.st_mode);
 }
 
@@ -795,7 +795,7 @@ bool Path::iterator::ischr() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISCHR(st.st_mode);
 }
 
@@ -809,7 +809,7 @@ bool Path::iterator::isfifo() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISFIFO(st.st_mode);
 }
 
@@ -822,7 +822,7 @@ bool Path::iterator::islnk() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISLNK(st.st_mode);
 }
 
@@ -835,7 +835,7 @@ bool Path::iterator::isreg() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISREG(st.st_mode);
 }
 
@@ -848,7 +848,7 @@ bool Path::iterator::issock() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISSOCK(st.st_mode);
 }
 
-- 
2.43.0


From 1ebd3213312b14ece871c4711aab6ae609610f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 074/138] fix: recognise symbolic links

---
 msat/utils/sys.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index c22d5c2..b9f855f 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -132,7 +132,14 @@ bool isfifo(const std::string& pathname)
 
 bool islnk(const std::string& pathname)
 {
-    common_stat_body(S_ISLNK);
+    struct stat st;
+    if (::lstat(pathname.c_str(), &st) == -1) {
+        if (errno == ENOENT)
+            return false;
+        else
+            throw std::system_error(errno, std::system_category(), "cannot stat " + pathname);
+    }
+    return S_ISLNK(st.st_mode);
 }
 
 bool isreg(const std::string& pathname)
-- 
2.43.0


From 9acff1ab3a74d73e53a29e623473547afd69e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 075/138] fix: do not end the program when a temporary file
 cannot be removed

---
 msat/utils/sys.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index b9f855f..aead7c4 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1002,7 +1002,10 @@ Tempfile::Tempfile(const char* prefix) : sys::File(sys::File::mkstemp(prefix)) {
 Tempfile::~Tempfile()
 {
     if (m_unlink_on_exit)
-        std::filesystem::remove(path_);
+    {
+        std::error_code ec;
+        std::filesystem::remove(path_, ec);
+    }
 }
 
 void Tempfile::unlink_on_exit(bool val)
-- 
2.43.0


From f4fb6278639996708c5a98a611d12b18da536aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 076/138] fix: do not leave temporary files behind when an
 atomic write fails

---
 msat/utils/sys.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index aead7c4..4cea797 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1124,7 +1124,7 @@ void write_file_atomically(const std::string& file, const void* data, size_t siz
 
 void write_file_atomically(const std::filesystem::path& file, const void* data, size_t size, mode_t mode)
 {
-    File out = File::mkstemp(file);
+    Tempfile out(file);
 
     // Read the umask
     mode_t mask = umask(0777);
@@ -1138,6 +1138,7 @@ void write_file_atomically(const std::filesystem::path& file, const void* data,
 
     if (::rename(out.path().c_str(), file.c_str()) < 0)
         throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+    out.unlink_on_exit(false);
 }
 
 #if 0
-- 
2.43.0


From c2ae7bfb36c19bac46088b5441329c83a726eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 077/138] fix: do not close again file descriptors after an
 error closing them

---
 msat/utils/sys.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 4cea797..aaa8380 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -301,9 +301,10 @@ bool FileDescriptor::is_open() const { return fd != -1; }
 void FileDescriptor::close()
 {
     if (fd == -1) return;
-    if (::close(fd) == -1)
-        throw_error("cannot close");
+    int closing = fd;
     fd = -1;
+    if (::close(closing) == -1)
+        throw_error("cannot close");
 }
 
 void FileDescriptor::fstat(struct stat& st)
-- 
2.43.0


From 903c53d39c1f10167e1db99aac20bc0c0e391ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 078/138] fix: make it possible to write containers to file
 descriptors

---
 msat/utils/sys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/sys.h b/msat/utils/sys.h
index 7c38dfd..8105893 100644
--- a/msat/utils/sys.h
+++ b/msat/utils/sys.h
@@ -252,7 +252,7 @@ public:
     template<typename Container>
     size_t write(const Container& c)
     {
-        return write(c.data(), c.size() * sizeof(Container::value_type));
+        return write(c.data(), c.size() * sizeof(typename Container::value_type));
     }
 
     /// Write all the data in buf, retrying partial writes
-- 
2.43.0


From 7188cf198b30437f86c08b3f2d03edba9b084441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 079/138] fix: do not take directories in the search path for
 executables

---
 msat/utils/sys.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index aaa8380..4987f6c 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1239,7 +1239,7 @@ std::filesystem::path which(const std::string& name)
     for (const auto& i: splitter)
     {
         auto candidate = std::filesystem::path(i) / name;
-        if (sys::access(candidate, X_OK))
+        if (sys::access(candidate, X_OK) && !std::filesystem::is_directory(candidate))
             return std::filesystem::absolute(candidate);
     }
 
-- 
2.43.0


From 60db84c55471814bac6f6bdeb1973abd9a217565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 080/138] fix: report that a file cannot be moved to a
 directory that does not exist

---
 msat/utils/sys.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 4987f6c..66931d0 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1199,8 +1199,11 @@ bool rename_ifexists(const std::filesystem::path& src, const std::filesystem::pa
 {
     if (::rename(src.c_str(), dst.c_str()) != 0)
     {
-        if (errno != ENOENT)
-            throw std::system_error(errno, std::system_category(), "cannot rename "s + src.native() + " to " + dst.native());
+        int err = errno;
+        // The destination directory may be what is missing
+        struct stat st;
+        if (err != ENOENT || ::lstat(src.c_str(), &st) == 0)
+            throw std::system_error(err, std::system_category(), "cannot rename "s + src.native() + " to " + dst.native());
         else
             return false;
     }
-- 
2.43.0


From 482bd6326c00787c36a00f9c1fa04d3d476efa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 081/138] fix: Compute reflectances of images whose size is not
 a multiple of their blocks

---
 gdal/reflectance/reflectance.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index 566d4f8..fac7896 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -7,6 +7,7 @@
 //#include <msat/hrit/MSG_data_RadiometricProc.h>
 #include <msat/hrit/MSG_channel.h>
 #include <string>
+#include <algorithm>
 #include <stdexcept>
 #include <stdint.h>
 
@@ -107,6 +108,15 @@ struct MissingValue
     bool operator()(double val) const { return defined && val == value; }
 };
 
+/// Read the pixels of one block, which can extend past the right and bottom
+/// edges of the image
+CPLErr read_block(GDALRasterBand* rb, int x, int y, int bsx, int bsy, double* buf)
+{
+    int sx = std::min(bsx, rb->GetXSize() - x);
+    int sy = std::min(bsy, rb->GetYSize() - y);
+    return rb->RasterIO(GF_Read, x, y, sx, sy, buf, sx, sy, GDT_Float64, 0, bsx * sizeof(double));
+}
+
 }
 
 SingleChannelReflectanceRasterBand::SingleChannelReflectanceRasterBand(ReflectanceDataset* ds, int idx)
@@ -145,7 +155,7 @@ CPLErr SingleChannelReflectanceRasterBand::IReadBlock(int xblock, int yblock, vo
 {
     // Read the raw data
     std::vector<double> raw(nBlockXSize * nBlockYSize);
-    if (source_rb->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    if (read_block(source_rb, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw.data()) == CE_Failure)
         return CE_Failure;
 
     // Precompute pixel georeferentiation
@@ -231,17 +241,17 @@ CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
 {
     // Read the IR 3.9 data
     std::vector<double> raw039(nBlockXSize * nBlockYSize);
-    if (source_ir039->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw039.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    if (read_block(source_ir039, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw039.data()) == CE_Failure)
         return CE_Failure;
 
     // Read the IR_10.8 channel
     std::vector<double> raw108(nBlockXSize * nBlockYSize);
-    if (source_ir108->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw108.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    if (read_block(source_ir108, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw108.data()) == CE_Failure)
         return CE_Failure;
 
     // Read the IR_13.4 channel
     std::vector<double> raw134(nBlockXSize * nBlockYSize);
-    if (source_ir134->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw134.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    if (read_block(source_ir134, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw134.data()) == CE_Failure)
         return CE_Failure;
 
     // Precompute pixel georeferentiation
-- 
2.43.0


From 66c874eefdd822200e9783077b8bedea7621defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 082/138] fix: Calibrate images read in blocks that do not fit
 in the stack

---
 msat/gdal/dataset.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 1483d93..c4447ce 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -23,6 +23,7 @@
 #include <gdal/ogr_spatialref.h>
 #include <msat/facts.h>
 #include <stdint.h>
+#include <vector>
 
 using namespace std;
 
@@ -405,8 +406,8 @@ double CalibratedRasterBand::GetNoDataValue(int *pbSuccess)
 CPLErr CalibratedRasterBand::IReadBlock(int xblock, int yblock, void *buf)
 {
     // Read the raw data
-    uint16_t raw[nBlockXSize * nBlockYSize];
-    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw) == CE_Failure)
+    std::vector<uint16_t> raw((size_t)nBlockXSize * nBlockYSize);
+    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw.data()) == CE_Failure)
         return CE_Failure;
 
     int has_missing = FALSE;
-- 
2.43.0


From f693b15ee5e10f50f0d1d1e8856155148a5524f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 083/138] fix: Give the right minimum and maximum of bands
 calibrated with a negative scale

---
 msat/gdal/dataset.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index c4447ce..9bc5842 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -375,13 +375,14 @@ CalibratedRasterBand::CalibratedRasterBand(GDALDataset& ds, GDALRasterBand& rb,
 
 double CalibratedRasterBand::GetMinimum(int *pbSuccess)
 {
-    double res = rb.GetMinimum(pbSuccess);
+    // A negative scale swaps the extremes
+    double res = scale < 0 ? rb.GetMaximum(pbSuccess) : rb.GetMinimum(pbSuccess);
     return res * scale + ofs;
 }
 
 double CalibratedRasterBand::GetMaximum(int *pbSuccess)
 {
-    double res = rb.GetMaximum(pbSuccess);
+    double res = scale < 0 ? rb.GetMinimum(pbSuccess) : rb.GetMaximum(pbSuccess);
     return res * scale + ofs;
 }
 
-- 
2.43.0


From 26d277fde113c076b3c2be22422b6e991fd96622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:30 +0000
Subject: [PATCH 084/138] fix: print packet sequence counts above 32767 as they
 are

---
 msat/msg-native/MSG_native_packetheader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/msg-native/MSG_native_packetheader.cpp b/msat/msg-native/MSG_native_packetheader.cpp
index 52368db..4650a43 100644
--- a/msat/msg-native/MSG_native_packetheader.cpp
+++ b/msat/msg-native/MSG_native_packetheader.cpp
@@ -79,7 +79,7 @@ std::ostream& operator<< ( std::ostream& os, IMPF_Packet_Header &h )
      << "DestFacilityId              : " << (short) ph->DestFacilityId
      << std::endl
      << "DestEnvId                   : " << (short) ph->DestEnvId << std::endl
-     << "SequenceCount               : " << (short) ph->SequenceCount
+     << "SequenceCount               : " << ph->SequenceCount
      << std::endl
      << "PacketLength                : " << ph->PacketLength << std::endl
      << "------------------------------------------------------" << std::endl
-- 
2.43.0


From 1c98976e3ea6aae3abbad95dd6cd46a850ae9cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 085/138] fix: write messages in the current directory only,
 and report those that cannot be written

---
 msat/hrit/MSG_data.cpp     | 24 ++++++++++++++----------
 msat/hrit/MSG_data_gts.cpp |  3 +++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 1642cef..420f09b 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -44,6 +44,16 @@ struct MSG_data_buffer {
   ~MSG_data_buffer( ) { delete [ ] buff; }
 };
 
+// Name of the file in the current directory that gets the contents of a message
+static std::string message_filename( const MSG_header &header )
+{
+  if (!header.annotation)
+    throw std::runtime_error("HRIT message without annotation header");
+  if (header.annotation->annotation.find('/') != std::string::npos)
+    throw std::runtime_error("HRIT message annotation is not a file name");
+  return header.annotation->annotation + ".bin";
+}
+
 std::ostream& operator<< ( std::ostream& os, MSG_data_level_15_header &h )
 {
   os << h.sat_status
@@ -152,11 +162,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       gts_message = new MSG_data_gts;
       dpos = gts_message->read_from(dbuff, dsize);
       {
-        std::string outname;
-        if (!header.annotation)
-          throw std::runtime_error("HRIT message without annotation header");
-        outname = header.annotation->annotation;
-        outname += ".bin";
+        std::string outname = message_filename(header);
         gts_message->dump(outname);
       }
 
@@ -309,16 +315,14 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       }
       {
         std::ofstream os;
-        std::string outname;
-        if (!header.annotation)
-          throw std::runtime_error("HRIT message without annotation header");
-        outname = header.annotation->annotation;
-        outname += ".bin";
+        std::string outname = message_filename(header);
         os.open(outname.c_str( ));
         if (!os.good())
           throw std::runtime_error("cannot write " + outname);
         os.write((char *) dbuff, (size_t) dsize);
         os.close( );
+        if (!os.good())
+          throw std::runtime_error("cannot write " + outname);
       }
       break;
 
diff --git a/msat/hrit/MSG_data_gts.cpp b/msat/hrit/MSG_data_gts.cpp
index 3fd0a9d..b44f322 100644
--- a/msat/hrit/MSG_data_gts.cpp
+++ b/msat/hrit/MSG_data_gts.cpp
@@ -83,6 +83,9 @@ void MSG_data_gts::dump(std::string filename)
   std::ofstream outs;
   outs.open(filename.c_str( ));
   outs.write((char_1 *) mbuff, msize);
+  outs.close( );
+  if (!outs.good( ))
+    throw std::runtime_error("cannot write " + filename);
   return;
 }
 
-- 
2.43.0


From ab5d935ab5b5b2fd973567c9cdac96f1ae714c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 086/138] fix: readers used again keep nothing of what they
 read before

---
 msat/hrit/MSG_data.cpp   | 34 ++++++++++++++++++++++++----------
 msat/hrit/MSG_data.h     |  2 ++
 msat/hrit/MSG_header.cpp | 34 +++++++++++++++++++++++++---------
 msat/hrit/MSG_header.h   |  3 +++
 4 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 420f09b..f8fda78 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -94,13 +94,25 @@ MSG_data::MSG_data( std::ifstream &in, MSG_header &header) : MSG_data( )
 
 MSG_data::~MSG_data( )
 {
-  if (key_message) delete key_message;
-  if (gts_message) delete gts_message;
-  if (text_message) delete text_message;
-  if (prologue) delete prologue;
-  if (epilogue) delete epilogue;
-  if (image) delete image;
-  if (sdsprologue) delete sdsprologue;
+  clear( );
+}
+
+void MSG_data::clear( )
+{
+  delete key_message;
+  delete gts_message;
+  delete text_message;
+  delete prologue;
+  delete epilogue;
+  delete image;
+  delete sdsprologue;
+  key_message  = 0;
+  gts_message  = 0;
+  text_message = 0;
+  prologue     = 0;
+  epilogue     = 0;
+  image        = 0;
+  sdsprologue  = 0;
 }
 
 void MSG_data::read_from( std::ifstream &in, MSG_header &header )
@@ -111,6 +123,8 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
   MSG_data_buffer dbuff_owner(dbuff);
   unsigned char_1 *dpnt = 0;
 
+  // Nothing is left of what was read before
+  clear( );
   typecode = header.f_typecode;
   switch (typecode)
   {
@@ -346,13 +360,13 @@ std::ostream& operator<< ( std::ostream& os, MSG_data &h )
       if (h.image) os << *(h.image);
       break;
     case MSG_FILE_GTS_MESSAGE:
-      os << *(h.gts_message);
+      if (h.gts_message) os << *(h.gts_message);
       break;
     case MSG_FILE_ALPHANUMERIC_TEXT:
-      os << *(h.text_message);
+      if (h.text_message) os << *(h.text_message);
       break;
     case MSG_FILE_ENCRYPTION_KEY_MESSAGE:
-      os << *(h.key_message);
+      if (h.key_message) os << *(h.key_message);
       break;
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
       if (h.prologue) os << *(h.prologue);
diff --git a/msat/hrit/MSG_data.h b/msat/hrit/MSG_data.h
index 3f37259..e6bbc73 100644
--- a/msat/hrit/MSG_data.h
+++ b/msat/hrit/MSG_data.h
@@ -102,6 +102,8 @@ class MSG_data {
     friend std::ostream& operator<< ( std::ostream& os, MSG_data &h );
 
   private:
+    void clear( );
+
     t_enum_MSG_filetype typecode;
 };
 
diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index c1444b8..f85de43 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -62,15 +62,29 @@ MSG_header::MSG_header( std::ifstream &in )
 
 MSG_header::~MSG_header( )
 {
-  if (image_structure) delete image_structure;
-  if (image_navigation) delete image_navigation;
-  if (image_data_function) delete image_data_function;
-  if (annotation) delete annotation;
-  if (timestamp) delete timestamp;
-  if (ancillary_text) delete ancillary_text;
-  if (key) delete key;
-  if (segment_id) delete segment_id;
-  if (segment_quality) delete segment_quality;
+  clear( );
+}
+
+void MSG_header::clear( )
+{
+  delete image_structure;
+  delete image_navigation;
+  delete image_data_function;
+  delete annotation;
+  delete timestamp;
+  delete ancillary_text;
+  delete key;
+  delete segment_id;
+  delete segment_quality;
+  image_structure = 0;
+  image_navigation = 0;
+  image_data_function = 0;
+  annotation = 0;
+  timestamp = 0;
+  ancillary_text = 0;
+  key = 0;
+  segment_id = 0;
+  segment_quality = 0;
 }
 
 void MSG_header::read_from( std::ifstream &in )
@@ -78,6 +92,8 @@ void MSG_header::read_from( std::ifstream &in )
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
   unsigned char_1 *hbuff;
 
+  // Nothing is left of what was read before
+  clear( );
   check_endianess( );
   in.read((char_1 *) primary_header, MSG_HEADER_PRIMARY_LEN);
   if (in.fail( ))
diff --git a/msat/hrit/MSG_header.h b/msat/hrit/MSG_header.h
index 7fa84ad..2a8849c 100644
--- a/msat/hrit/MSG_header.h
+++ b/msat/hrit/MSG_header.h
@@ -94,6 +94,9 @@ class MSG_header {
     MSG_header_key *key;
     MSG_header_segment_id *segment_id;
     MSG_header_segment_quality *segment_quality;
+
+  private:
+    void clear( );
 };
 
 #endif
-- 
2.43.0


From 539391c2a4e1e467fe06f634fe226a08ae8e9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 087/138] fix: xritdump crashed on uniform, short or wide
 segments and on lines darker than all segments

---
 tools/hrit/xritdump.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index d855111..423f65e 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -27,6 +27,7 @@
 #include <msat/hrit/MSG_HRIT.h>
 
 #include <stdint.h>
+#include <algorithm>
 #include <set>
 #include <string>
 #include <vector>
@@ -48,6 +49,15 @@ static void do_help(const char* argv0, ostream& out)
             << "  --help           Print this help message" << endl;
 }
 
+// Character that stands for a sample, from the darkest to the brightest
+static char shade(MSG_SAMPLE s, MSG_SAMPLE min, MSG_SAMPLE max)
+{
+        static const string aachars = " .,-:=$#";
+        if (s <= min) return aachars[0];
+        if (s >= max) return aachars[aachars.size() - 1];
+        return aachars[(s-min) * aachars.size() / (max-min)];
+}
+
 static void do_dump(const char* name)
 {
         FileAccess fa(name);
@@ -83,7 +93,6 @@ static void do_dump(const char* name)
                      << "WestColumnActual: " << da.WestColumnActual << endl;
         }
 
-        string aachars = " .,-:=$#";
         MSG_SAMPLE compmin = 0xffff, compmax = 0;
         for (size_t i = 0; i < da.segnames.size(); ++i)
         {
@@ -94,6 +103,9 @@ static void do_dump(const char* name)
                 {
                         cout << "missing." << endl;
                         continue;
+                } else if (d->image->len < da.npixperseg) {
+                        cout << "incomplete." << endl;
+                        continue;
                 } else {
                         for (size_t i = 0; i < da.npixperseg; ++i)
                         {
@@ -114,7 +126,7 @@ static void do_dump(const char* name)
                                 size_t px = x * da.columns / charx;
                                 size_t py = y * da.seglines / chary;
                                 MSG_SAMPLE s = d->image->data[py * da.columns + px];
-                                char c = aachars[(s-min) * aachars.size() / (max-min)];
+                                char c = shade(s, min, max);
                                 cout << c;
                         }
                         cout << endl;
@@ -134,14 +146,14 @@ static void do_dump(const char* name)
         for (size_t y = 0; y < chary; ++y)
         {
                 size_t py = y * comp_sy / chary;
-                MSG_SAMPLE buf[comp_sx];
-                bzero(buf, comp_sx * sizeof(MSG_SAMPLE));
-                da.line_read(py, buf);
+                // Lines are read as wide as the image is
+                vector<MSG_SAMPLE> buf(max(comp_sx, da.columns), 0);
+                da.line_read(py, buf.data());
                 for (size_t x = 0; x < charx; ++x)
                 {
                         size_t px = x * comp_sx / charx;
                         MSG_SAMPLE s = buf[px];
-                        char c = aachars[(s-compmin) * aachars.size() / (compmax-compmin)];
+                        char c = shade(s, compmin, compmax);
                         cout << c;
                 }
                 cout << endl;
-- 
2.43.0


From 49c3fb485aa3b351393ed12b05397fff9eaf9dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:22 +0000
Subject: [PATCH 088/138] fix: XRIT2Image crashed on damaged segments and
 segments that are not of an image

---
 tools/hrit/XRIT2Image.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 6aa8588..1c3a169 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -48,7 +48,7 @@ void usage(char *pname);
 std::string underscoreit(std::string base, int final_len);
 
 int main(int argc, char *argv[ ])
-{
+try {
   char *directory = NULL;
   char *overlay_image = NULL;
   char *resolution = NULL;
@@ -186,6 +186,16 @@ int main(int argc, char *argv[ ])
 
   globfree(&globbuf);
 
+  // The segments must be parts of one image
+  for (int i = 0; i < nsegments; i ++)
+  {
+    if (!header[i].segment_id || !header[i].image_structure || !msgdat[i].image)
+    {
+      std::cerr << "Not an image segment." << std::endl;
+      return 1;
+    }
+  }
+
   if (header[0].segment_id->data_field_format == MSG_NO_FORMAT)
   {
     std::cout << "Product dumped in binary format." << std::endl;
@@ -199,7 +209,10 @@ int main(int argc, char *argv[ ])
     segsindexes[i] = -1;
 
   for (int i = 0; i < nsegments; i ++)
-    segsindexes[header[i].segment_id->sequence_number-1] = i;
+  {
+    int seq = header[i].segment_id->sequence_number;
+    if (seq >= 1 && seq <= totalsegs) segsindexes[seq-1] = i;
+  }
 
   filename = resolution;
   filename = filename + "-" + productid1 + "-" + productid2 + "-" +
@@ -211,7 +224,7 @@ int main(int argc, char *argv[ ])
 
   int npix = header[0].image_structure->number_of_columns;
   int nlin = header[0].image_structure->number_of_lines;
-  size_t npixperseg = npix*nlin;
+  size_t npixperseg = (size_t) npix*nlin;
 
   size_t total_size = totalsegs*npixperseg;
   MSG_SAMPLE *pixels = new MSG_SAMPLE[total_size];
@@ -219,7 +232,7 @@ int main(int argc, char *argv[ ])
   size_t pos = 0;
   for (int i = 0; i < totalsegs; i ++)
   {
-    if (segsindexes[i] >= 0)
+    if (segsindexes[i] >= 0 && msgdat[segsindexes[i]].image->len >= npixperseg)
       memcpy(pixels+pos, msgdat[segsindexes[i]].image->data,
              npixperseg*sizeof(MSG_SAMPLE));
     pos += npixperseg;
@@ -255,6 +268,9 @@ int main(int argc, char *argv[ ])
   delete [ ] msgdat;
   delete [ ] segsindexes;
   return 0;
+} catch (std::exception& e) {
+  std::cerr << e.what() << std::endl;
+  return 1;
 }
 
 void usage(char *pname)
-- 
2.43.0


From 519b6b2966271f3a40422cc90dc6fad8ba288e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:32 +0000
Subject: [PATCH 089/138] fix: XRIT2Image aborted on images without pixels

---
 tools/hrit/XRIT2Image.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 1c3a169..b105e9e 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -227,6 +227,11 @@ try {
   size_t npixperseg = (size_t) npix*nlin;
 
   size_t total_size = totalsegs*npixperseg;
+  if (total_size == 0)
+  {
+    std::cerr << "The image has no pixels." << std::endl;
+    return 1;
+  }
   MSG_SAMPLE *pixels = new MSG_SAMPLE[total_size];
   memset(pixels, 0, total_size*sizeof(MSG_SAMPLE));
   size_t pos = 0;
-- 
2.43.0


From c6bdadc43e998397775f37905f4ceded2b8fbc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:56 +0000
Subject: [PATCH 090/138] fix: keep the seconds in the time coordinate of
 NetCDF files

---
 gdal/netcdf/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdal/netcdf/utils.cpp b/gdal/netcdf/utils.cpp
index 0a50ee4..93f2e9f 100644
--- a/gdal/netcdf/utils.cpp
+++ b/gdal/netcdf/utils.cpp
@@ -41,6 +41,7 @@ time_t forecastSeconds2000(const char* timestr)
         itm.tm_mday = day;
         itm.tm_hour = hour;
         itm.tm_min  = minute;
+        itm.tm_sec  = second;
 
         // This ugly thing, or use the GNU extension timegm
         const char* tz = getenv("TZ");
-- 
2.43.0


From 69bcc0d0141138fdc0cbc3a41c7ca0d019a94f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 091/138] fix: read 32-bit NetCDF samples as 32-bit integers

---
 gdal/netcdf/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdal/netcdf/utils.cpp b/gdal/netcdf/utils.cpp
index 93f2e9f..10e3289 100644
--- a/gdal/netcdf/utils.cpp
+++ b/gdal/netcdf/utils.cpp
@@ -173,7 +173,7 @@ CPLErr NetCDFRasterBand::IReadBlock(int xblock, int yblock, void *buf)
                 case GDT_Int16:
                 case GDT_UInt16:  res = var->get( (short*)buf, 1, nBlockYSize, nBlockXSize); break;
                 case GDT_Int32:
-                case GDT_UInt32:  res = var->get(  (long*)buf, 1, nBlockYSize, nBlockXSize); break;
+                case GDT_UInt32:  res = var->get(   (int*)buf, 1, nBlockYSize, nBlockXSize); break;
                 case GDT_Float32: res = var->get( (float*)buf, 1, nBlockYSize, nBlockXSize); break;
                 case GDT_Float64: res = var->get((double*)buf, 1, nBlockYSize, nBlockXSize); break;
                 default:
-- 
2.43.0


From a846f0788414a720866b5a68ee735336b94f9642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:47 +0000
Subject: [PATCH 092/138] fix: keep the no-data value of unsigned 32-bit images
 in NetCDF files

---
 gdal/netcdf/utils.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gdal/netcdf/utils.cpp b/gdal/netcdf/utils.cpp
index 10e3289..128d36e 100644
--- a/gdal/netcdf/utils.cpp
+++ b/gdal/netcdf/utils.cpp
@@ -209,6 +209,13 @@ bool copy_data(NcVar& dst, GDALRasterBand& src, GDALDataType outType)
     return true;
 }
 
+// NetCDF has no unsigned types: an unsigned value is stored as the signed one with the same bits
+template<typename Signed, typename Unsigned>
+static Signed fill_value(double val, bool is_unsigned)
+{
+    return is_unsigned ? (Signed)(Unsigned)val : (Signed)val;
+}
+
 NcVar* rasterBandToNcVar(GDALRasterBand* rb, NcFile& ncf, NcDim* tdim, NcDim* ldim, NcDim* cdim)
 {
     NcError nce(NcError::silent_nonfatal);
@@ -258,15 +265,15 @@ NcVar* rasterBandToNcVar(GDALRasterBand* rb, NcFile& ncf, NcDim* tdim, NcDim* ld
     switch (dtdst)
     {
         case ncByte:
-            if (!ncfAddAttr(*ivar, "_FillValue", (int8_t)rb->GetNoDataValue())) return NULL;
+            if (!ncfAddAttr(*ivar, "_FillValue", fill_value<int8_t, uint8_t>(rb->GetNoDataValue(), _Unsigned))) return NULL;
             res = copy_data<ncbyte>(*ivar, *rb, gdaldst);
             break;
         case ncShort:
-            if (!ncfAddAttr(*ivar, "_FillValue", (int16_t)rb->GetNoDataValue())) return NULL;
+            if (!ncfAddAttr(*ivar, "_FillValue", fill_value<int16_t, uint16_t>(rb->GetNoDataValue(), _Unsigned))) return NULL;
             res = copy_data<int16_t>(*ivar, *rb, gdaldst);
             break;
         case ncInt:
-            if (!ncfAddAttr(*ivar, "_FillValue", (int32_t)rb->GetNoDataValue())) return NULL;
+            if (!ncfAddAttr(*ivar, "_FillValue", fill_value<int32_t, uint32_t>(rb->GetNoDataValue(), _Unsigned))) return NULL;
             res = copy_data<int32_t>(*ivar, *rb, gdaldst);
             break;
         case ncFloat:
-- 
2.43.0


From 29991c3b8a381a273c904b396f6631f5f507cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:20 +0000
Subject: [PATCH 093/138] fix: refuse to write images without a projection as
 NetCDF

---
 gdal/netcdf/netcdf.cpp   | 5 +++++
 gdal/netcdf/netcdf24.cpp | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index 2d8d5c5..a60606e 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -296,6 +296,11 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
 
         // Projection
         const OGRSpatialReference* osr(src->GetSpatialRef());
+        if (osr == NULL)
+        {
+                CPLError(CE_Failure, CPLE_AppDefined, "source dataset does not have a projection");
+                return NULL;
+        }
 	string projection;
 	if (const char* proj = osr->GetAttrValue("PROJECTION"))
 		projection = proj;
diff --git a/gdal/netcdf/netcdf24.cpp b/gdal/netcdf/netcdf24.cpp
index 21b2032..431f529 100644
--- a/gdal/netcdf/netcdf24.cpp
+++ b/gdal/netcdf/netcdf24.cpp
@@ -343,7 +343,13 @@ GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src,
                 return NULL;
         }
 
-        OGRSpatialReference osr(*src->GetSpatialRef());
+        const OGRSpatialReference* src_osr = src->GetSpatialRef();
+        if (src_osr == NULL)
+        {
+                CPLError(CE_Failure, CPLE_AppDefined, "source dataset does not have a projection");
+                return NULL;
+        }
+        OGRSpatialReference osr(*src_osr);
 
         // Sanity checks, and computation of target values
         const char* stype = osr.GetAttrValue("PROJECTION");
-- 
2.43.0


From b727191ec800e761d55132da994ed2a45605d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:20 +0000
Subject: [PATCH 094/138] fix: refuse images with a band that cannot be written
 as NetCDF

---
 gdal/netcdf/netcdf.cpp   | 1 +
 gdal/netcdf/netcdf24.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index a60606e..8c6e88b 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -513,6 +513,7 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
         {
                 GDALRasterBand* rb = src->GetRasterBand(i);
                 NcVar* ivar = rasterBandToNcVar(rb, ncf, tdim, ldim, cdim);
+                if (ivar == NULL) return NULL;
 
                 sval = rb->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT);
                 if (sval != NULL)
diff --git a/gdal/netcdf/netcdf24.cpp b/gdal/netcdf/netcdf24.cpp
index 431f529..817f7bf 100644
--- a/gdal/netcdf/netcdf24.cpp
+++ b/gdal/netcdf/netcdf24.cpp
@@ -543,6 +543,7 @@ GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src,
         {
                 GDALRasterBand* rb = src->GetRasterBand(i);
                 NcVar* ivar = rasterBandToNcVar(rb, ncf, tdim, ldim, cdim);
+                if (ivar == NULL) return NULL;
 
                 const char* sval = rb->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT);
                 if (sval != NULL)
-- 
2.43.0


From 3a3e8a787677bbf4d9cd128cc504786b0403995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:20 +0000
Subject: [PATCH 095/138] fix: refuse NetCDF24 files without a Projection
 variable

---
 gdal/netcdf/netcdf24.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gdal/netcdf/netcdf24.cpp b/gdal/netcdf/netcdf24.cpp
index 817f7bf..2aaa5ef 100644
--- a/gdal/netcdf/netcdf24.cpp
+++ b/gdal/netcdf/netcdf24.cpp
@@ -144,6 +144,11 @@ bool NetCDF24Dataset::init()
 
         /// Projection
         NcVar* proj = nc->get_var("Projection");
+        if (proj == NULL)
+        {
+                CPLError(CE_Failure, CPLE_AppDefined, "Projection variable not found");
+                return false;
+        }
         if (NcAtt* a = proj->get_att("Lop"))
         {
                 dataset::set_spaceview(osr, getAttr<float>(*a));
-- 
2.43.0


From 08901d2a2788f45815819b68aa90533b86aeb1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:38 +0000
Subject: [PATCH 096/138] fix: report NetCDF files that cannot be written to
 the end

---
 gdal/netcdf/netcdf.cpp   | 6 +++++-
 gdal/netcdf/netcdf24.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index 8c6e88b..df3295b 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -521,7 +521,11 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
         }
 
         // Close NetCDF output
-        (void) ncf.close( );
+        if (!ncf.close())
+        {
+                CPLError(CE_Failure, CPLE_AppDefined, "Cannot write NetCDF file %s: %s", pszFilename, nce.get_errmsg());
+                return NULL;
+        }
 
         //  cout << "Wrote file " << NcName << "." << endl;
 
diff --git a/gdal/netcdf/netcdf24.cpp b/gdal/netcdf/netcdf24.cpp
index 2aaa5ef..8dd7c99 100644
--- a/gdal/netcdf/netcdf24.cpp
+++ b/gdal/netcdf/netcdf24.cpp
@@ -562,7 +562,11 @@ GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src,
         }
 
         // Close NetCDF output
-        (void) ncf.close( );
+        if (!ncf.close())
+        {
+                CPLError(CE_Failure, CPLE_AppDefined, "Cannot write NetCDF file %s: %s", pszFilename, nce.get_errmsg());
+                return NULL;
+        }
 
         //  cout << "Wrote file " << NcName << "." << endl;
 
-- 
2.43.0


From 75c352bc98de50178fd657a63bf502bc9e6f3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:35 +0000
Subject: [PATCH 097/138] fix: read NetCDF attributes without values as missing

---
 gdal/netcdf/utils.cpp |  2 +-
 gdal/netcdf/utils.h   | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/gdal/netcdf/utils.cpp b/gdal/netcdf/utils.cpp
index 128d36e..deb7ccf 100644
--- a/gdal/netcdf/utils.cpp
+++ b/gdal/netcdf/utils.cpp
@@ -90,7 +90,7 @@ const char* NetCDFRasterBand::GetUnitType()
         NcError nce(NcError::silent_nonfatal);
         NcAtt* a = var->get_att("units");
         if (a != NULL)
-                return a->as_string(0);
+                return getAttr<const char*>(*a);
         else
                 return "";
 }
diff --git a/gdal/netcdf/utils.h b/gdal/netcdf/utils.h
index a076f28..33cedad 100644
--- a/gdal/netcdf/utils.h
+++ b/gdal/netcdf/utils.h
@@ -30,19 +30,19 @@ namespace netcdf {
 // TODO: redo the default with a compiler error
 template<typename Sample>
 static inline Sample getAttr(const NcAtt& a) { throw std::runtime_error("requested to read attribute from unknown C++ type"); }
-template<> inline ncbyte getAttr<ncbyte>(const NcAtt& a) { return a.as_ncbyte(0); }
-template<> inline char getAttr<char>(const NcAtt& a) { return a.as_char(0); }
-template<> inline short getAttr<short>(const NcAtt& a) { return a.as_short(0); }
-template<> inline int getAttr<int>(const NcAtt& a) { return a.as_int(0); }
-template<> inline float getAttr<float>(const NcAtt& a) { return a.as_float(0); }
-template<> inline double getAttr<double>(const NcAtt& a) { return a.as_double(0); }
-template<> inline const char* getAttr<const char*>(const NcAtt& a) { return a.as_string(0); }
+template<> inline ncbyte getAttr<ncbyte>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_ncbyte(0) : 0; }
+template<> inline char getAttr<char>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_char(0) : 0; }
+template<> inline short getAttr<short>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_short(0) : 0; }
+template<> inline int getAttr<int>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_int(0) : 0; }
+template<> inline float getAttr<float>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_float(0) : 0; }
+template<> inline double getAttr<double>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_double(0) : 0; }
+template<> inline const char* getAttr<const char*>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_string(0) : ""; }
 
 template<typename Sample, typename NC>
 static inline Sample getAttr(const NC& el, const char* name, Sample def)
 {
         NcAtt* a = el.get_att(name);
-        if (a == NULL) return def;
+        if (a == NULL || a->num_vals() == 0) return def;
         return getAttr<Sample>(*a);
 }
 
-- 
2.43.0


From 6638d9102dd5a47283fa52d3228d93eb61963562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 098/138] fix: XRIT2NetCDF crashed on damaged segments and
 files that are not of an image

---
 tools/hrit/XRIT2NetCDF.cpp | 40 +++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/tools/hrit/XRIT2NetCDF.cpp b/tools/hrit/XRIT2NetCDF.cpp
index 7bdc538..719244d 100644
--- a/tools/hrit/XRIT2NetCDF.cpp
+++ b/tools/hrit/XRIT2NetCDF.cpp
@@ -62,7 +62,7 @@ int AreaLinStart = 1, AreaNlin, AreaPixStart = 1, AreaNpix;
 /* ************************************************************************* */
 
 int main( int argc, char* argv[] )
-{
+try {
   char *directory = NULL;
   char *resolution = NULL;
   char *productid1 = NULL;
@@ -182,6 +182,11 @@ int main( int argc, char* argv[] )
   PRO_head.read_from(hrit);
   PRO_data.read_from(hrit, PRO_head);
   hrit.close( );
+  if (!PRO_data.prologue)
+  {
+    std::cerr << "Not a prologue file." << std::endl;
+    return 1;
+  }
   std::cout << PRO_head;
 
   globfree(&globbuf);
@@ -230,6 +235,17 @@ int main( int argc, char* argv[] )
 
   globfree(&globbuf);
 
+  // The segments must be parts of one image
+  for (int i = 0; i < nsegments; i ++)
+  {
+    if (!header[i].segment_id || !header[i].image_structure ||
+        !header[i].image_navigation || !msgdat[i].image)
+    {
+      std::cerr << "Not an image segment." << std::endl;
+      return 1;
+    }
+  }
+
   if (header[0].segment_id->data_field_format == MSG_NO_FORMAT)
   {
     std::cout << "Product dumped in binary format." << std::endl;
@@ -243,18 +259,27 @@ int main( int argc, char* argv[] )
     segsindexes[i] = -1;
 
   for (int i = 0; i < nsegments; i ++)
-    segsindexes[header[i].segment_id->sequence_number-1] = i;
+  {
+    int seq = header[i].segment_id->sequence_number;
+    if (seq >= 1 && seq <= totalsegs) segsindexes[seq-1] = i;
+  }
 
   std::cout << "Writing NetCDF output..." << std::endl;
   if(!NetCDFProduct(&PRO_head, &PRO_data,
                     totalsegs, segsindexes, header, msgdat))
-    throw "Created NetCDF product NOT OK";
+  {
+    std::cerr << "Created NetCDF product NOT OK" << std::endl;
+    return 1;
+  }
 
   delete [ ] header;
   delete [ ] msgdat;
   delete [ ] segsindexes;
 
   return(0);
+} catch (std::exception& e) {
+  std::cerr << e.what() << std::endl;
+  return 1;
 }
 
 void usage(char *pname)
@@ -320,15 +345,20 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
 
   int npix = header[0].image_structure->number_of_columns;
   int nlin = header[0].image_structure->number_of_lines;
-  size_t npixperseg = npix*nlin;
+  size_t npixperseg = (size_t) npix*nlin;
 
   size_t total_size = totalsegs*npixperseg;
+  if (total_size == 0)
+  {
+    std::cerr << "The image has no pixels." << std::endl;
+    return false;
+  }
   MSG_SAMPLE *pixels = new MSG_SAMPLE[total_size];
   memset(pixels, 0, total_size*sizeof(MSG_SAMPLE));
   size_t pos = 0;
   for (int i = 0; i < totalsegs; i ++)
   {
-    if (segsindexes[i] >= 0)
+    if (segsindexes[i] >= 0 && msgdat[segsindexes[i]].image->len >= npixperseg)
       memcpy(pixels+pos, msgdat[segsindexes[i]].image->data,
              npixperseg*sizeof(MSG_SAMPLE));
     pos += npixperseg;
-- 
2.43.0


From f3c2e9354d6211dd4aca1f4a5644a6458a29417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 099/138] fix: XRIT2NetCDF wrote the start of a sub-area one
 pixel and line too low

---
 tools/hrit/XRIT2NetCDF.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/hrit/XRIT2NetCDF.cpp b/tools/hrit/XRIT2NetCDF.cpp
index 719244d..51d8b8f 100644
--- a/tools/hrit/XRIT2NetCDF.cpp
+++ b/tools/hrit/XRIT2NetCDF.cpp
@@ -396,6 +396,8 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   }
   else
   {
+    AreaPixStart = 0;
+    AreaLinStart = 0;
     AreaNpix = npix;
     AreaNlin = nlin;
   }
@@ -439,8 +441,8 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   if (! ncf.add_att("Lines", AreaNlin ) ) return false;
   if (! ncf.add_att("SampleX", 1.0 ) ) return false;
   if (! ncf.add_att("SampleY", 1.0 ) ) return false;
-  if (! ncf.add_att("AreaStartPix", AreaPixStart ) ) return false;
-  if (! ncf.add_att("AreaStartLin", AreaLinStart ) ) return false;
+  if (! ncf.add_att("AreaStartPix", AreaPixStart + 1 ) ) return false;
+  if (! ncf.add_att("AreaStartLin", AreaLinStart + 1 ) ) return false;
   if (! ncf.add_att("Column_Scale_Factor", cfac) ) return false;
   if (! ncf.add_att("Line_Scale_Factor", lfac) ) return false;
   if (! ncf.add_att("Column_Offset", coff) ) return false;
-- 
2.43.0


From 641e65fd15bbeac4b25e8cc4827ac9861c328271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 100/138] fix: XRIT2NetCDF aborted on areas outside the image
 and accepted empty ones

---
 tools/hrit/XRIT2NetCDF.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/tools/hrit/XRIT2NetCDF.cpp b/tools/hrit/XRIT2NetCDF.cpp
index 51d8b8f..e2f1497 100644
--- a/tools/hrit/XRIT2NetCDF.cpp
+++ b/tools/hrit/XRIT2NetCDF.cpp
@@ -113,8 +113,12 @@ try {
       case 'a':
        is_subarea = true;
        areastring = strdup(optarg);
-       sscanf(areastring, "%d,%d,%d,%d",
-              &AreaLinStart, &AreaNlin, &AreaPixStart, &AreaNpix);
+       if (sscanf(areastring, "%d,%d,%d,%d",
+                  &AreaLinStart, &AreaNlin, &AreaPixStart, &AreaNpix) != 4)
+       {
+         usage(pname);
+         return(1);
+       }
        AreaPixStart --;
        AreaLinStart --;
        break;
@@ -369,26 +373,26 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   // Manage subarea
   if (is_subarea)
   {
-    if (AreaLinStart < 0                             ||
-        AreaLinStart > nlin - AreaNlin ||
-        AreaNlin > nlin - AreaLinStart)
+    if (AreaLinStart < 0 || AreaNlin < 1 ||
+        AreaNlin > nlin || AreaLinStart > nlin - AreaNlin)
     {
       std::cerr << "Wrong Subarea in lines...." << std::endl;
-      throw;
+      delete [ ] pixels;
+      return false;
     }
-    if (AreaPixStart < 0               ||
-        AreaPixStart > npix - AreaNpix ||
-        AreaNpix > npix - AreaPixStart)
+    if (AreaPixStart < 0 || AreaNpix < 1 ||
+        AreaNpix > npix || AreaPixStart > npix - AreaNpix)
     {
       std::cerr << "Wrong Subarea in Pixels...." << std::endl;
-      throw;
+      delete [ ] pixels;
+      return false;
     }
-    size_t newsize = AreaNpix * AreaNlin;
+    size_t newsize = (size_t) AreaNpix * AreaNlin;
     MSG_SAMPLE *newpix = new MSG_SAMPLE[newsize];
     memset(newpix, 0, newsize*sizeof(MSG_SAMPLE));
     for (int i = 0; i < AreaNlin; i ++)
-      memcpy(newpix + i * AreaNpix,
-             pixels + (AreaLinStart + i) * npix + AreaPixStart,
+      memcpy(newpix + (size_t) i * AreaNpix,
+             pixels + (size_t) (AreaLinStart + i) * npix + AreaPixStart,
              AreaNpix * sizeof(MSG_SAMPLE));
     delete [ ] pixels;
     pixels = newpix;
-- 
2.43.0


From 2d4015f5b353ab101aaf6176868c0189a1b81906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 101/138] fix: HRI2NetCDF aborted on files that are too short

---
 tools/hri/HRI2NetCDF.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/hri/HRI2NetCDF.cpp b/tools/hri/HRI2NetCDF.cpp
index e9fface..2e5a43c 100644
--- a/tools/hri/HRI2NetCDF.cpp
+++ b/tools/hri/HRI2NetCDF.cpp
@@ -169,7 +169,7 @@ static bool NetCDFProduct(char *inname)
 /* ************************************************************************* */
 
 int main( int argc, char* argv[] )
-{
+try {
   if (argc < 2)
   {
     std::cerr << "Usage: " << argv[0] << " HRI_file" << std::endl;
@@ -187,6 +187,9 @@ int main( int argc, char* argv[] )
   }
 
   return(0);
+} catch (std::exception& e) {
+  std::cerr << e.what() << std::endl;
+  return 1;
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From 951d5f1721c80922770a725e851a1e5b4c039ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 102/138] fix: HRI2NetCDF named the next images with a time one
 hour later in zones with daylight saving time

---
 tools/hri/HRI2NetCDF.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tools/hri/HRI2NetCDF.cpp b/tools/hri/HRI2NetCDF.cpp
index 2e5a43c..379272b 100644
--- a/tools/hri/HRI2NetCDF.cpp
+++ b/tools/hri/HRI2NetCDF.cpp
@@ -141,10 +141,9 @@ static bool NetCDFProduct(char *inname)
     tvar->add_att("long_name", "Time");
     tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
     double atime;
-    time_t ttime;
-    extern long timezone;
-    ttime = mktime(tmtime);
-    atime = ttime - 946684800 - timezone;
+    // Convert a copy, since the next images are named after tmtime
+    struct tm utctime = *tmtime;
+    atime = timegm(&utctime) - 946684800;
     if (!tvar->put(&atime, 1)) return false;
 
     ivar = ncf.add_var(hri.image[i].name.c_str( ), ncByte, tdim, ldim, cdim);
-- 
2.43.0


From 13a2c0f33c68fff77ca5a2c0f7cb1ae1bf0ac902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:39 +0000
Subject: [PATCH 103/138] fix: say that a child process has terminated when
 waiting for it again with a timeout

---
 msat/utils/subprocess.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 6d7b058..c207a25 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -410,7 +410,7 @@ bool Child::wait(int msecs)
         throw std::runtime_error("wait called before Child process was started");
 
     if (m_terminated)
-        return returncode();
+        return true;
 
     // this is the old complex logic needed to support old kernels without
     // pidfd_open
-- 
2.43.0


From f605adc043401ede303599bc353202e70557d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:39 +0000
Subject: [PATCH 104/138] fix: do not send signals to the own process group
 when the child process has not started

---
 msat/utils/subprocess.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index c207a25..a5e5bfc 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -457,6 +457,9 @@ bool Child::wait(int msecs)
 
 void Child::send_signal(int sig)
 {
+    if (m_pid == 0)
+        throw std::runtime_error("cannot send a signal before the Child process was started");
+
     if (::kill(m_pid, sig) == -1)
         throw std::system_error(
                 errno, std::system_category(),
-- 
2.43.0


From f64019f804442c67ea960210f592ababeccf63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:39 +0000
Subject: [PATCH 105/138] fix: keep waiting for a child process when a signal
 interrupts the wait

---
 msat/utils/subprocess.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index a5e5bfc..2f10a27 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -367,7 +367,10 @@ int Child::wait()
     if (m_terminated)
         return returncode();
 
-    pid_t res = waitpid(m_pid, &m_returncode, 0);
+    pid_t res;
+    do {
+        res = waitpid(m_pid, &m_returncode, 0);
+    } while (res == -1 && errno == EINTR);
     if (res == -1)
         throw std::system_error(
                 errno, std::system_category(),
-- 
2.43.0


From 4020ca51c5ab478cf674fc185cf77790414c4b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:39 +0000
Subject: [PATCH 106/138] fix: allow to redirect a child process to one of its
 standard descriptors and two of them to the same file

---
 msat/utils/subprocess.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 2f10a27..6636b0b 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -216,7 +216,8 @@ void Child::post_fork_child()
         switch (m_stdin_action)
         {
             case Redirect::FD:
-                redirect(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
+                if (dup2(m_stdin[0], STDIN_FILENO) == -1)
+                    throw std::system_error(errno, std::system_category(), "failed to redirect stdin");
                 break;
             case Redirect::PIPE:
                 if (close(m_stdin[1]) == -1)
@@ -236,7 +237,8 @@ void Child::post_fork_child()
         switch (m_stdout_action)
         {
             case Redirect::FD:
-                redirect(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
+                if (dup2(m_stdout[1], STDOUT_FILENO) == -1)
+                    throw std::system_error(errno, std::system_category(), "failed to redirect stdout");
                 break;
             case Redirect::PIPE:
                 if (close(m_stdout[0]) == -1)
@@ -256,7 +258,8 @@ void Child::post_fork_child()
         switch (m_stderr_action)
         {
             case Redirect::FD:
-                redirect(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
+                if (dup2(m_stderr[1], STDERR_FILENO) == -1)
+                    throw std::system_error(errno, std::system_category(), "failed to redirect stderr");
                 break;
             case Redirect::PIPE:
                 if (close(m_stderr[0]) == -1)
-- 
2.43.0


From 8658b2ce03ffba0130c7c935d0aec5856536abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:39 +0000
Subject: [PATCH 107/138] fix: close both ends of the pipes of a child process
 that could not be started

---
 msat/utils/subprocess.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 6636b0b..725a034 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -20,6 +20,7 @@ Child::~Child()
     switch (m_stdin_action)
     {
         case Redirect::PIPE:
+            if (m_stdin[0] != -1) ::close(m_stdin[0]);
             if (m_stdin[1] != -1) ::close(m_stdin[1]);
             break;
         default:
@@ -30,6 +31,7 @@ Child::~Child()
     {
         case Redirect::PIPE:
             if (m_stdout[0] != -1) ::close(m_stdout[0]);
+            if (m_stdout[1] != -1) ::close(m_stdout[1]);
             break;
         default:
             break;
@@ -39,6 +41,7 @@ Child::~Child()
     {
         case Redirect::PIPE:
             if (m_stderr[0] != -1) ::close(m_stderr[0]);
+            if (m_stderr[1] != -1) ::close(m_stderr[1]);
             break;
         default:
             break;
-- 
2.43.0


From 71117fb3d51bcfbf1d0917a93b228472960fa958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:35 +0000
Subject: [PATCH 108/138] fix: only the first 20 of 256 entries of the
 histograms of OpenMTP images were read

---
 msat/openmtp/OpenMTP_binary_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index e62456b..a099785 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -475,7 +475,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram( )
 {
   static int tmp[256];
 
-  for (int i = 0; i < 20; i ++)
+  for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+5319+4*i);
   return tmp;
 }
@@ -483,7 +483,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram_VISn( )
 {
   static int tmp[256];
 
-  for (int i = 0; i < 20; i ++)
+  for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+6343+4*i);
   return tmp;
 }
-- 
2.43.0


From bdced3a3c30c52fb8f02eb70e08f147302678306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:35 +0000
Subject: [PATCH 109/138] fix: the attitude of OpenMTP images has three
 coordinates, the fourth one printed was part of the next field

---
 msat/openmtp/OpenMTP_binary_header.cpp | 6 ++----
 msat/openmtp/OpenMTP_binary_header.h   | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index a099785..7fc0b06 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -511,20 +511,18 @@ double *OpenMTP_binary_header::urec_orbit_coord_in_geoframe_end( )
 }
 float *OpenMTP_binary_header::urec_cartesian_attitude_start( )
 {
-  static float tmp[4];
+  static float tmp[3];
   tmp[0] = m.float4(header+7479);
   tmp[1] = m.float4(header+7479+4);
   tmp[2] = m.float4(header+7479+8);
-  tmp[3] = m.float4(header+7479+12);
   return tmp;
 }
 float *OpenMTP_binary_header::urec_cartesian_attitude_end( )
 {
-  static float tmp[4];
+  static float tmp[3];
   tmp[0] = m.float4(header+7491);
   tmp[1] = m.float4(header+7491+4);
   tmp[2] = m.float4(header+7491+8);
-  tmp[3] = m.float4(header+7491+12);
   return tmp;
 }
 short *OpenMTP_binary_header::urec_horizon_information( )
diff --git a/msat/openmtp/OpenMTP_binary_header.h b/msat/openmtp/OpenMTP_binary_header.h
index 607d78f..8a1f2bb 100644
--- a/msat/openmtp/OpenMTP_binary_header.h
+++ b/msat/openmtp/OpenMTP_binary_header.h
@@ -269,10 +269,10 @@ class OpenMTP_binary_header {
         for (i = 0; i < 6; i ++)
           os << "Orbl " << i << "\t\t" << dtmp[i] << std::endl;
         ftmp = h.urec_cartesian_attitude_start( );
-        for (i = 0; i < 4; i ++)
+        for (i = 0; i < 3; i ++)
           os << "Attf " << i << "\t\t" << ftmp[i] << std::endl;
         ftmp = h.urec_cartesian_attitude_end( );
-        for (i = 0; i < 4; i ++)
+        for (i = 0; i < 3; i ++)
           os << "Attl " << i << "\t\t" << ftmp[i] << std::endl;
         stmp = h.urec_horizon_information( );
         for (j = 0; j < 4; j ++)
-- 
2.43.0


From da99d6269d6118b5cab01a4ba161092429897310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:35 +0000
Subject: [PATCH 110/138] fix: read the times of the horizon scan lines of
 OpenMTP images from their place

---
 msat/openmtp/OpenMTP_binary_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 7fc0b06..29dc04a 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -605,8 +605,8 @@ short *OpenMTP_binary_header::urec_horizon_limit_information( )
 double *OpenMTP_binary_header::urec_times_of_horizon_scan_lines( )
 {
   static double tmp[2];
-  tmp[0] = m.float8(header+7579);
-  tmp[1] = m.float8(header+7579+8);
+  tmp[0] = m.float8(header+7603);
+  tmp[1] = m.float8(header+7603+8);
   return tmp;
 }
 short OpenMTP_binary_header::urec_radiometer_step_south( )
-- 
2.43.0


From 441794d257f6c83d5efb82482c0b155694d1b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:35 +0000
Subject: [PATCH 111/138] fix: OpenMTP images of the A and B formats are not
 subwindows

---
 msat/openmtp/OpenMTP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index 15a70e9..f9be49f 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -133,7 +133,7 @@ bool OpenMTP::is_B_format( )
 
 bool OpenMTP::is_subwindow( )
 {
-  return (!is_A_format( ) || !is_B_format( ));
+  return (!is_A_format( ) && !is_B_format( ));
 }
 
 int OpenMTP::nlines( ) { return binary_header.nlines( ); }
-- 
2.43.0


From ea6e23306f3a7ce9a3df48aa079b081f939938b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 112/138] fix: report OpenMTP files that cannot be read instead
 of aborting

---
 msat/openmtp/OpenMTP.cpp               | 11 ++++++-----
 msat/openmtp/OpenMTP_ascii_header.cpp  |  4 ++--
 msat/openmtp/OpenMTP_binary_header.cpp | 16 ++++++----------
 msat/openmtp/OpenMTP_image_line.cpp    |  4 ++--
 tools/openmtp/OpenMTP_info.cc          | 11 ++++++++---
 tools/openmtp/OpenMTP_to_NetCDF.cpp    | 16 +++++++++++-----
 6 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index f9be49f..3dc38ef 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -28,6 +28,8 @@
 //-----------------------------------------------------------------------------
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 #include <time.h>
 #include <stdlib.h>
 #include "OpenMTP_ascii_header.h"
@@ -43,8 +45,7 @@ void OpenMTP::open( char *inname )
   std::ifstream infile(inname, (ios::binary | ios::in));
   if (infile.fail())
   {
-    cerr << "Cannot open input OpenMTP file " << inname << endl;
-    throw;
+    throw std::runtime_error(std::string("Cannot open input OpenMTP file ") + inname);
   }
   read(infile);
   return;
@@ -92,7 +93,7 @@ char * OpenMTP::get_satellite_name( )
 {
   if(!strcmp(binary_header.satellite_name( ), "M7")) return "METEOSAT 7";
   if(!strcmp(binary_header.satellite_name( ), "M6")) return "METEOSAT 6";
-  throw "Can only manage METEOSAT OpenMTP files\n"; 
+  throw std::runtime_error("Can only manage METEOSAT OpenMTP files"); 
 }
 
 char * OpenMTP::get_timestr( )
@@ -159,7 +160,7 @@ const char *OpenMTP::get_chname( )
   else if (binary_header.is_ir_data( )) return "IR";
   else if (binary_header.is_wv_data( )) return "WV";
   else
-    throw "Invalid Channel in OpenMTP format\n";
+    throw std::runtime_error("Invalid Channel in OpenMTP format");
 }
 
 const char *OpenMTP::get_chunit( )
@@ -168,7 +169,7 @@ const char *OpenMTP::get_chunit( )
   else if (binary_header.is_ir_data( )) return "K";
   else if (binary_header.is_wv_data( )) return "K";
   else
-    throw "Invalid Channel in OpenMTP format\n";
+    throw std::runtime_error("Invalid Channel in OpenMTP format");
 }
 
 const char *OpenMTP::get_field_name( )
diff --git a/msat/openmtp/OpenMTP_ascii_header.cpp b/msat/openmtp/OpenMTP_ascii_header.cpp
index 742491a..dd58864 100644
--- a/msat/openmtp/OpenMTP_ascii_header.cpp
+++ b/msat/openmtp/OpenMTP_ascii_header.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_ascii_header.h"
 
 OpenMTP_ascii_header::OpenMTP_ascii_header( ) { }
@@ -44,8 +45,7 @@ void OpenMTP_ascii_header::read( std::ifstream &file )
   file.read(header, ASCII_HEADER_LENGTH);
   if (file.fail( ))
   {
-    std::cerr << "Read error from OpenMTP file: ASCII Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from OpenMTP file: ASCII Header.");
   }
   header[ASCII_HEADER_LENGTH] = 0;
   return;
diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 29dc04a..831947c 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -30,6 +30,7 @@
 #include <string.h>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_machine.h"
 #include "OpenMTP_binary_header.h"
 
@@ -49,8 +50,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
   file.read((char *) header, BINARY_HEADER_FIRST_SECTION_LENGTH);
   if (file.fail( ))
   {
-    std::cerr << "Read error : BINARY Header, first section." << std::endl;
-    throw;
+    throw std::runtime_error("Read error : BINARY Header, first section.");
   }
 
   pnt = header + BINARY_HEADER_FIRST_SECTION_LENGTH;
@@ -60,8 +60,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     file.seekg(BINARY_HEADER_SECOND_SECTION_LENGTH, ios::cur);
     if (file.fail( ))
     {
-      std::cerr << "Read error : BINARY Header, second section" << std::endl;
-      throw;
+      throw std::runtime_error("Read error : BINARY Header, second section");
     }
   }
   else
@@ -69,8 +68,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     file.read((char *) pnt, BINARY_HEADER_SECOND_SECTION_LENGTH);
     if (file.fail( ))
     {
-      std::cerr << "Read error : BINARY Header, second section" << std::endl;
-      throw;
+      throw std::runtime_error("Read error : BINARY Header, second section");
     }
   }
 
@@ -80,8 +78,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     file.read((char *) pnt, BINARY_HEADER_THIRD_SECTION_VIS_CMP_LENGTH);
     if (file.fail( ))
     {
-      std::cerr << "Read error : BINARY Header, third section" << std::endl;
-      throw;
+      throw std::runtime_error("Read error : BINARY Header, third section");
     }
   }
   else
@@ -89,8 +86,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     file.read((char *) pnt, BINARY_HEADER_THIRD_SECTION_NORMAL_LEGTH);
     if (file.fail( ))
     {
-      std::cerr << "Read error : BINARY Header, third section" << std::endl;
-      throw;
+      throw std::runtime_error("Read error : BINARY Header, third section");
     }
   }
 
diff --git a/msat/openmtp/OpenMTP_image_line.cpp b/msat/openmtp/OpenMTP_image_line.cpp
index 9c88faa..fb80be8 100644
--- a/msat/openmtp/OpenMTP_image_line.cpp
+++ b/msat/openmtp/OpenMTP_image_line.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_image_line.h"
 
 OpenMTP_image_line::OpenMTP_image_line( ) { }
@@ -45,8 +46,7 @@ void OpenMTP_image_line::read( std::ifstream &file, int npixels)
   file.read((char *) line, npixels+32);
   if (file.fail( ))
   {
-    std::cerr << "Read error from OpenMTP file: Image Line." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from OpenMTP file: Image Line.");
   }
   return;
 }
diff --git a/tools/openmtp/OpenMTP_info.cc b/tools/openmtp/OpenMTP_info.cc
index da5dc6f..36b750d 100644
--- a/tools/openmtp/OpenMTP_info.cc
+++ b/tools/openmtp/OpenMTP_info.cc
@@ -61,9 +61,14 @@ main(int argc, char* argv[])
     return 0;
   }
 
-  if (!OpenMTP_info(argv[1]))
-  {
-    std::cerr << "Cannot get OpenMPT info from " << argv[1] << std::endl;
+  try {
+    if (!OpenMTP_info(argv[1]))
+    {
+      std::cerr << "Cannot get OpenMPT info from " << argv[1] << std::endl;
+      return 1;
+    }
+  } catch (std::exception &e) {
+    std::cerr << e.what() << std::endl;
     return 1;
   }
 
diff --git a/tools/openmtp/OpenMTP_to_NetCDF.cpp b/tools/openmtp/OpenMTP_to_NetCDF.cpp
index d3b1eda..99f0d97 100644
--- a/tools/openmtp/OpenMTP_to_NetCDF.cpp
+++ b/tools/openmtp/OpenMTP_to_NetCDF.cpp
@@ -27,6 +27,7 @@
 #include <cstdio>
 #include <cmath>
 #include <cstdlib>
+#include <stdexcept>
 
 // Unidata NetCDF
 
@@ -102,7 +103,7 @@ static bool NetCDFProduct( char *inpath )
       scale = 1.0;
     }
     else
-      throw "Unsupported AFormat image (?)\n";
+      throw std::runtime_error("Unsupported AFormat image (?)");
   }
   else if (omtp.is_B_format( ))
   {
@@ -114,7 +115,7 @@ static bool NetCDFProduct( char *inpath )
     scale = 2.0;
   }
   else
-    throw "Currently supporting only A or B format images\n";
+    throw std::runtime_error("Currently supporting only A or B format images");
 
   if (! ncf.add_att("Projection", "GEOS(0.0)") ) return false;
   if (! ncf.add_att("Columns", omtp.npixels( ) * (int) scale) ) return false;
@@ -207,9 +208,14 @@ int main( int argc, char* argv[] )
     return 0;
   }
 
-  if (!NetCDFProduct(argv[1]))
-  {
-    std::cerr << "Created NetCDF product NOT OK" << std::endl;
+  try {
+    if (!NetCDFProduct(argv[1]))
+    {
+      std::cerr << "Created NetCDF product NOT OK" << std::endl;
+      return 1;
+    }
+  } catch (std::exception &e) {
+    std::cerr << e.what() << std::endl;
     return 1;
   }
 
-- 
2.43.0


From faf13500b166e9a4c3638e049d03570291e36d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 113/138] fix: check the size of OpenMTP images, and allow to
 read another image

---
 msat/openmtp/OpenMTP_image.cpp    | 17 +++++++++++------
 msat/openmtp/OpenMTP_image.h      |  2 +-
 msat/openmtp/OpenMTP_image_line.h |  5 +++--
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/msat/openmtp/OpenMTP_image.cpp b/msat/openmtp/OpenMTP_image.cpp
index a794924..dae3111 100644
--- a/msat/openmtp/OpenMTP_image.cpp
+++ b/msat/openmtp/OpenMTP_image.cpp
@@ -31,31 +31,36 @@
 #include <cmath>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_image.h"
 
-OpenMTP_image::OpenMTP_image( ) { image = 0; }
+OpenMTP_image::OpenMTP_image( ) { image = 0; nlines = npixels = 0; }
 OpenMTP_image::OpenMTP_image( std::ifstream &file, OpenMTP_binary_header &h )
 {
   image = 0;
   read(file, h);
 }
-OpenMTP_image::~OpenMTP_image( ) { if (image) delete image; }
+OpenMTP_image::~OpenMTP_image( ) { delete[] image; }
 
 void OpenMTP_image::read( std::ifstream &file, OpenMTP_binary_header &h )
 {
   float rad = 0.0;
   float cc, sc;
   
+  nlines = npixels = 0;
+  if (h.nlines( ) < 0 || h.npixels( ) < 0 ||
+      h.npixels( ) > OpenMTP_image_line::MAX_PIXELS)
+    throw std::runtime_error("Invalid size of OpenMTP image");
+  delete[] image;
+  image = 0;
+  image = new unsigned char[(size_t) h.nlines( )*h.npixels( )];
   nlines = h.nlines( );
   npixels = h.npixels( );
 
-  if (!image)
-    image = new unsigned char[nlines*npixels];
-
   for (int i = 0; i < nlines; i ++)
   {
     line.read(file, npixels);
-    memcpy(image+i*npixels, line.linevals( ), npixels);
+    memcpy(image+(size_t) i*npixels, line.linevals( ), npixels);
   }
 
   for (int i = 0; i < 256; i ++)
diff --git a/msat/openmtp/OpenMTP_image.h b/msat/openmtp/OpenMTP_image.h
index 2962778..2b06372 100644
--- a/msat/openmtp/OpenMTP_image.h
+++ b/msat/openmtp/OpenMTP_image.h
@@ -54,7 +54,7 @@ class OpenMTP_image {
       for (int j = 0; j < im.nlines; j ++)
         for (int i = 0; i < im.npixels; i ++)
           os << "Pixel (" << j << "," << i << ")\t"
-             << *(im.calibration+(*(im.image+j*im.npixels+i)))
+             << *(im.calibration+(*(im.image+(size_t) j*im.npixels+i)))
              << std::endl;
       return os;
     }
diff --git a/msat/openmtp/OpenMTP_image_line.h b/msat/openmtp/OpenMTP_image_line.h
index 5438d35..f096b2c 100644
--- a/msat/openmtp/OpenMTP_image_line.h
+++ b/msat/openmtp/OpenMTP_image_line.h
@@ -35,6 +35,8 @@
 
 class OpenMTP_image_line {
   public:
+    const static int MAX_PIXELS = 5000;
+
     OpenMTP_image_line( );
     OpenMTP_image_line( std::ifstream &file, int npixels );
     ~OpenMTP_image_line( );
@@ -61,8 +63,7 @@ class OpenMTP_image_line {
 
   private:
     int npix;
-    const static int MAX_PIXELS = 5000;
-    const static int BUFLEN = 5032;
+    const static int BUFLEN = MAX_PIXELS + 32;
     unsigned char line[BUFLEN];
     OpenMTP_machine m;
 };
-- 
2.43.0


From 6c7aa2e6dfbd189a7200fd5e80a6ab63201c2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 114/138] fix: OpenMTP_to_NetCDF wrote outside its buffers for
 impossible dates

---
 tools/openmtp/OpenMTP_to_NetCDF.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/openmtp/OpenMTP_to_NetCDF.cpp b/tools/openmtp/OpenMTP_to_NetCDF.cpp
index 99f0d97..16a4272 100644
--- a/tools/openmtp/OpenMTP_to_NetCDF.cpp
+++ b/tools/openmtp/OpenMTP_to_NetCDF.cpp
@@ -66,7 +66,7 @@ static bool NetCDFProduct( char *inpath )
   tmtime = omtp.get_datetime( );
 
   // Build up output NetCDF file name and open it
-  sprintf( NcName, "%s_%s_%s.nc", omtp.get_satellite_code( ),
+  snprintf( NcName, sizeof(NcName), "%s_%s_%s.nc", omtp.get_satellite_code( ),
            omtp.get_field_name( ), omtp.get_timestr( ));
   NcFile ncf ( NcName , NcFile::Replace );
   if (! ncf.is_valid()) return false;
@@ -78,7 +78,7 @@ static bool NetCDFProduct( char *inpath )
   if (! ncf.add_att("Satellite", omtp.get_satellite_name( ))) return false;
   if (! ncf.add_att("Antenna", "Meteosat Archive")) return false;
   if (! ncf.add_att("Receiver", "Meteosat Archive")) return false;
-  sprintf(reftime, "%04d-%02d-%02d %02d:%02d:00 UTC",
+  snprintf(reftime, sizeof(reftime), "%04d-%02d-%02d %02d:%02d:00 UTC",
       tmtime.tm_year + 1900, tmtime.tm_mon + 1, tmtime.tm_mday,
       tmtime.tm_hour, tmtime.tm_min);
   if (! ncf.add_att("Time", reftime) ) return false;
@@ -134,7 +134,7 @@ static bool NetCDFProduct( char *inpath )
   if (! ncf.add_att("Conventions", "COARDS") ) return false;
   if (! ncf.add_att("history", "Created from OpenMTP format data") )
     return false;
-  sprintf(title, "OpenMTP %s product for %04d-%02d-%02d %02d:%02d:00 UTC",
+  snprintf(title, sizeof(title), "OpenMTP %s product for %04d-%02d-%02d %02d:%02d:00 UTC",
             omtp.get_field_name( ), tmtime.tm_year + 1900, tmtime.tm_mon + 1,
             tmtime.tm_mday, tmtime.tm_hour, tmtime.tm_min);
   if (! ncf.add_att("title", title) ) return false;
-- 
2.43.0


From ec09f0ba5204412827957217c7a12b3b04624eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:00 +0000
Subject: [PATCH 115/138] fix: XRIT2NetCDF wrote a wrong time coordinate in
 zones that have changed their offset

---
 tools/hrit/XRIT2NetCDF.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tools/hrit/XRIT2NetCDF.cpp b/tools/hrit/XRIT2NetCDF.cpp
index e2f1497..8dafbc2 100644
--- a/tools/hrit/XRIT2NetCDF.cpp
+++ b/tools/hrit/XRIT2NetCDF.cpp
@@ -497,9 +497,8 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
   double atime;
   time_t ttime;
-  extern long timezone;
-  ttime = mktime(tmtime);
-  atime = ttime - 946684800 - timezone;
+  ttime = timegm(tmtime);
+  atime = ttime - 946684800;
   if (!tvar->put(&atime, 1)) return false;
 
   ivar = ncf.add_var(channel, ncShort, tdim, ldim, cdim);
-- 
2.43.0


From 04695b7dc9a5a0f3016f46b24167503a3dc888b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:00 +0000
Subject: [PATCH 116/138] fix: OpenMTP_to_NetCDF wrote a wrong time coordinate
 in zones that have changed their offset

---
 tools/openmtp/OpenMTP_to_NetCDF.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tools/openmtp/OpenMTP_to_NetCDF.cpp b/tools/openmtp/OpenMTP_to_NetCDF.cpp
index 16a4272..7656d73 100644
--- a/tools/openmtp/OpenMTP_to_NetCDF.cpp
+++ b/tools/openmtp/OpenMTP_to_NetCDF.cpp
@@ -171,9 +171,8 @@ static bool NetCDFProduct( char *inpath )
   tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
   double atime;
   time_t ttime;
-  extern long timezone;
-  ttime = mktime(&tmtime);
-  atime = ttime - 946684800 - timezone;
+  ttime = timegm(&tmtime);
+  atime = ttime - 946684800;
   if (!tvar->put(&atime, 1)) return false;
 
   // Define channel values variable
-- 
2.43.0


From 971569373c14f445a1c06d0e1be78fdbfa06e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:32 +0000
Subject: [PATCH 117/138] fix: asking a DB1 source for a channel changed the
 size of the channel in use

---
 msat/thornsds_db1/thornsds_db1.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 5aaec70..519c69a 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -81,8 +81,9 @@ bool MSG_db1_data::has_channel(char *chname)
     return false;
   }
   char chfname[PATH_MAX];
+  struct stat st;
   sprintf(chfname, "%s/%s.RAW", dirname, chname);
-  if (stat(chfname, &chfstat) == 0)
+  if (stat(chfname, &st) == 0)
     return true;
   return false;
 }
@@ -109,6 +110,12 @@ void MSG_db1_data::set_channel(char *chname)
     std::cerr << "Cannot open file: " << iname << std::endl;
     return;
   }
+  if (fstat(fileno(fp), &chfstat) != 0)
+  {
+    std::cerr << "Cannot read file: " << iname << std::endl;
+    fclose(fp);
+    return;
+  }
   rawdata = (unsigned short *) (new unsigned char[chfstat.st_size]);
   if (fread(rawdata, chfstat.st_size, 1, fp) != 1)
   {
-- 
2.43.0


From addbfb5ef72f72e1f3477bb36f413f08cd523553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:32 +0000
Subject: [PATCH 118/138] fix: a DB1 channel that cannot be read was taken for
 the one read before it, with another calibration

---
 msat/thornsds_db1/thornsds_db1.cpp | 8 ++++++++
 msat/thornsds_db1/thornsds_db1.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 519c69a..7b36c7c 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -51,6 +51,11 @@ void MSG_db1_data::close( )
   if (dirname) { free(dirname); dirname = 0; }
   if (AoI) { iniparser_free(AoI); AoI = 0; }
   if (INFO) { iniparser_free(INFO); INFO = 0; }
+  close_channel( );
+}
+
+void MSG_db1_data::close_channel( )
+{
   if (Calibration) { iniparser_free(Calibration); Calibration = 0; }
   if (rawdata) { delete [ ] rawdata; rawdata = 0; }
   if (cal_values) { delete [ ] cal_values; cal_values = 0; }
@@ -90,10 +95,12 @@ bool MSG_db1_data::has_channel(char *chname)
 
 void MSG_db1_data::set_channel(char *chname)
 {
+  close_channel( );
   if (! this->has_channel(chname))
   {
     if (dirname)
       std::cerr << "Channel not present in " << dirname << std::endl;
+    return;
   }
   char iname[PATH_MAX];
   sprintf(iname, "%s/%s.Calibration", dirname, chname);
@@ -120,6 +127,7 @@ void MSG_db1_data::set_channel(char *chname)
   if (fread(rawdata, chfstat.st_size, 1, fp) != 1)
   {
     std::cerr << "Cannot read file: " << iname << std::endl;
+    fclose(fp);
     return;
   }
   fclose(fp);
diff --git a/msat/thornsds_db1/thornsds_db1.h b/msat/thornsds_db1/thornsds_db1.h
index a012f73..97be83f 100644
--- a/msat/thornsds_db1/thornsds_db1.h
+++ b/msat/thornsds_db1/thornsds_db1.h
@@ -106,6 +106,7 @@ class MSG_db1_data {
     friend std::ostream& operator<< ( std::ostream& os, MSG_db1_data &d );
   private:
     int get_channel_number(char *chname);
+    void close_channel( );
     char infochuse[INFOCHLEN];
     char *dirname;
     struct stat chfstat;
-- 
2.43.0


From a9c888d156be1259f024d7812f95d525b18243c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:32 +0000
Subject: [PATCH 119/138] fix: opening a second DB1 source kept the channel of
 the first

---
 msat/thornsds_db1/thornsds_db1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 7b36c7c..7bb1b99 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -66,6 +66,7 @@ void MSG_db1_data::close_channel( )
 void MSG_db1_data::open( char *directory )
 {
   char iname[PATH_MAX];
+  this->close( );
   this->dirname = strdup(directory);
   snprintf(iname, PATH_MAX, "%s/%s", directory, "AoI");
   AoI = iniparser_new(iname);
-- 
2.43.0


From 1a2db9a5eb2772f726d21ec8069973fdbac519a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:32 +0000
Subject: [PATCH 120/138] fix: DB1 sources with an impossible number of bits
 per pixel made the reader allocate without bounds

---
 msat/thornsds_db1/thornsds_db1.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 7bb1b99..ba648ed 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -133,7 +133,14 @@ void MSG_db1_data::set_channel(char *chname)
   }
   fclose(fp);
   this->chnum = get_channel_number(chname);
-  ncalval = (int) (pow(2.0, (double) get_INFO_image_bitsperpixel( )));
+  int bpp = get_INFO_image_bitsperpixel( );
+  if (chnum > 0 && (bpp < 1 || bpp > 16))
+  {
+    std::cerr << "Invalid bits per pixel: " << bpp << std::endl;
+    close_channel( );
+    return;
+  }
+  ncalval = (int) (pow(2.0, (double) bpp));
   cal_values = new float[ncalval];
 
   for (int i = 0; i < ncalval; i ++)
-- 
2.43.0


From 4c4fc0749c05195010589ce6b35941324b6853d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:32 +0000
Subject: [PATCH 121/138] fix: the calibration of DB1 channels whose variable
 has a long name was not found

---
 msat/thornsds_db1/thornsds_db1.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index ba648ed..99ef5c2 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -26,6 +26,7 @@
 #include <cstring>
 #include <cstdio>
 #include <cmath>
+#include <string>
 #include <limits.h>
 #include <msat/iniparser.h>
 #include "thornsds_db1.h"
@@ -429,9 +430,9 @@ float MSG_db1_data::get_channel_Calibration_value_calibrated( int count )
 {
   if (! is_data_ok( )) return 0;
   if (count < 0 && count >= ncalval) return 0.0;
-  snprintf(infochuse, INFOCHLEN, "%s:%s(%d)", get_channel_INFO_variable( ),
-           get_channel_INFO_variable_code( ), count);
-  return (float) iniparser_getdouble(Calibration, infochuse, 0.0);
+  std::string key = std::string(get_channel_INFO_variable( )) + ":" +
+           get_channel_INFO_variable_code( ) + "(" + std::to_string(count) + ")";
+  return (float) iniparser_getdouble(Calibration, (char *) key.c_str( ), 0.0);
 }
 
 unsigned short *MSG_db1_data::get_RAW_data( )
-- 
2.43.0


From f78b12ca614b673bda2e5dfc8dfdaaea10966698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:32 +0000
Subject: [PATCH 122/138] fix: counts outside the range of a DB1 channel were
 given a calibrated value

---
 msat/thornsds_db1/thornsds_db1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 99ef5c2..5ad0cea 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -429,7 +429,7 @@ float MSG_db1_data::get_channel_Calibration_B( )
 float MSG_db1_data::get_channel_Calibration_value_calibrated( int count )
 {
   if (! is_data_ok( )) return 0;
-  if (count < 0 && count >= ncalval) return 0.0;
+  if (count < 0 || count >= ncalval) return 0.0;
   std::string key = std::string(get_channel_INFO_variable( )) + ":" +
            get_channel_INFO_variable_code( ) + "(" + std::to_string(count) + ")";
   return (float) iniparser_getdouble(Calibration, (char *) key.c_str( ), 0.0);
-- 
2.43.0


From f6832788f71efdfefdab09b06c49581d2e61ccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:32 +0000
Subject: [PATCH 123/138] fix: long channel names overflowed the file names of
 DB1 sources

---
 msat/thornsds_db1/thornsds_db1.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 5ad0cea..4f389f5 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -89,7 +89,8 @@ bool MSG_db1_data::has_channel(char *chname)
   }
   char chfname[PATH_MAX];
   struct stat st;
-  sprintf(chfname, "%s/%s.RAW", dirname, chname);
+  if (snprintf(chfname, PATH_MAX, "%s/%s.RAW", dirname, chname) >= PATH_MAX)
+    return false;
   if (stat(chfname, &st) == 0)
     return true;
   return false;
@@ -105,14 +106,14 @@ void MSG_db1_data::set_channel(char *chname)
     return;
   }
   char iname[PATH_MAX];
-  sprintf(iname, "%s/%s.Calibration", dirname, chname);
+  snprintf(iname, PATH_MAX, "%s/%s.Calibration", dirname, chname);
   Calibration = iniparser_new(iname);
   if (Calibration == 0)
   {
     std::cerr << "No such file: " << iname << std::endl;
     std::cerr << "No Calibration performed for " << chname << std::endl;
   }
-  sprintf(iname, "%s/%s.RAW", dirname, chname);
+  snprintf(iname, PATH_MAX, "%s/%s.RAW", dirname, chname);
   FILE *fp = fopen(iname, "r");
   if (! fp)
   {
-- 
2.43.0


From f0815be513aaab1284df4414629bf1c5e2a59b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:32 +0000
Subject: [PATCH 124/138] fix: db1_to_image and db1_to_netcdf read outside of
 the data of channels smaller than their image

---
 tools/thornsds_db1/db1_to_image.cpp  | 8 ++++++++
 tools/thornsds_db1/db1_to_netcdf.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index 720a081..1e5cf2d 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -80,6 +80,14 @@ int main (int argc, char *argv[])
     return -1;
   }
 
+  if (db1.get_INFO_image_pixels( ) < 1 || db1.get_INFO_image_lines( ) < 1 ||
+      db1.get_raw_data_nvals( ) / db1.get_INFO_image_pixels( )
+        < db1.get_INFO_image_lines( ))
+  {
+    std::cerr << "Exit: the data are smaller than the image." << std::endl;
+    return -1;
+  }
+
   char outname[PATH_MAX];
   snprintf(outname, PATH_MAX, "%s_%s_%s.%s", db1.get_INFO_satellite_name( ),
            db1.get_channel_INFO_name( ),
diff --git a/tools/thornsds_db1/db1_to_netcdf.cpp b/tools/thornsds_db1/db1_to_netcdf.cpp
index 9cf5327..6826500 100644
--- a/tools/thornsds_db1/db1_to_netcdf.cpp
+++ b/tools/thornsds_db1/db1_to_netcdf.cpp
@@ -66,6 +66,14 @@ int main (int argc, char *argv[])
     return -1;
   }
 
+  if (db1.get_INFO_image_pixels( ) < 1 || db1.get_INFO_image_lines( ) < 1 ||
+      db1.get_raw_data_nvals( ) / db1.get_INFO_image_pixels( )
+        < db1.get_INFO_image_lines( ))
+  {
+    std::cerr << "Exit: the data are smaller than the image." << std::endl;
+    return -1;
+  }
+
   char outname[PATH_MAX];
   snprintf(outname, PATH_MAX, "%s_%s_%s.nc", db1.get_INFO_satellite_name( ),
            db1.get_channel_INFO_name( ), db1.get_INFO_schedule_start( ));
-- 
2.43.0


From 65077b6df00f73eb26d6fada5264e668639dc0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:32 +0000
Subject: [PATCH 125/138] fix: db1_to_netcdf ended successfully when it could
 not write its output

---
 tools/thornsds_db1/db1_to_netcdf.cpp | 80 ++++++++++++++--------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/tools/thornsds_db1/db1_to_netcdf.cpp b/tools/thornsds_db1/db1_to_netcdf.cpp
index 6826500..ecc06c2 100644
--- a/tools/thornsds_db1/db1_to_netcdf.cpp
+++ b/tools/thornsds_db1/db1_to_netcdf.cpp
@@ -108,67 +108,67 @@ int main (int argc, char *argv[])
   float sh = 42164.0;
 
   NcFile ncf ( outname , NcFile::Replace );
-  if (! ncf.is_valid()) return false;
+  if (! ncf.is_valid()) return 1;
 
   // Fill arrays on creation
   ncf.set_fill(NcFile::Fill);
 
   // Add Global Attributes
   if (! ncf.add_att("Satellite", db1.get_INFO_satellite_name( )))
-	            return false;
+	            return 1;
   int year,month,day,hour,minute,second;
   sscanf(db1.get_INFO_schedule_start( ), "%02d/%02d/%04d %02d:%02d:%02d.000",
          &day, &month, &year, &hour, &minute, &second);
   sprintf(reftime, "%04d-%02d-%02d %02d:%02d:%02d UTC",
           year, month, day, hour, minute, second);
-  if (! ncf.add_att("Antenna", "Fixed") ) return false;
-  if (! ncf.add_att("Receiver", db1.get_INFO_station_name( )) ) return false;
-  if (! ncf.add_att("Time", reftime) ) return false;
-  if (! ncf.add_att("Area_Name", db1.get_AoI_name( ) ) ) return false;
-  if (! ncf.add_att("Projection", db1.get_AoI_projection( )) ) return false;
-  if (! ncf.add_att("Columns", wd ) ) return false;
-  if (! ncf.add_att("Lines", hg ) ) return false;
-  if (! ncf.add_att("SampleX", 1.0 ) ) return false;
-  if (! ncf.add_att("SampleY", 1.0 ) ) return false;
-  if (! ncf.add_att("AreaStartPix", spix ) ) return false;
-  if (! ncf.add_att("AreaStartLin", slin ) ) return false;
-  if (! ncf.add_att("Column_Scale_Factor", cfac) ) return false;
-  if (! ncf.add_att("Line_Scale_Factor", lfac) ) return false;
-  if (! ncf.add_att("Column_Offset", coff) ) return false;
-  if (! ncf.add_att("Line_Offset", loff) ) return false;
-  if (! ncf.add_att("Orbit_Radius", sh) ) return false;
-  if (! ncf.add_att("Longitude", sublon) ) return false;
-  if (! ncf.add_att("NortPolar", 1) ) return false;
+  if (! ncf.add_att("Antenna", "Fixed") ) return 1;
+  if (! ncf.add_att("Receiver", db1.get_INFO_station_name( )) ) return 1;
+  if (! ncf.add_att("Time", reftime) ) return 1;
+  if (! ncf.add_att("Area_Name", db1.get_AoI_name( ) ) ) return 1;
+  if (! ncf.add_att("Projection", db1.get_AoI_projection( )) ) return 1;
+  if (! ncf.add_att("Columns", wd ) ) return 1;
+  if (! ncf.add_att("Lines", hg ) ) return 1;
+  if (! ncf.add_att("SampleX", 1.0 ) ) return 1;
+  if (! ncf.add_att("SampleY", 1.0 ) ) return 1;
+  if (! ncf.add_att("AreaStartPix", spix ) ) return 1;
+  if (! ncf.add_att("AreaStartLin", slin ) ) return 1;
+  if (! ncf.add_att("Column_Scale_Factor", cfac) ) return 1;
+  if (! ncf.add_att("Line_Scale_Factor", lfac) ) return 1;
+  if (! ncf.add_att("Column_Offset", coff) ) return 1;
+  if (! ncf.add_att("Line_Offset", loff) ) return 1;
+  if (! ncf.add_att("Orbit_Radius", sh) ) return 1;
+  if (! ncf.add_att("Longitude", sublon) ) return 1;
+  if (! ncf.add_att("NortPolar", 1) ) return 1;
   if (! ncf.add_att("NorthSouth", (! db1.get_INFO_schedule_northsouth( ))) )
-      return false;
-  if (! ncf.add_att("title", TITLE) ) return false;
-  if (! ncf.add_att("Institution", INSTITUTION) ) return false;
-  if (! ncf.add_att("Type", TYPE) ) return false;
-  if (! ncf.add_att("Version", NCVERSION) ) return false;
-  if (! ncf.add_att("Conventions", "COARDS") ) return false;
-  if (! ncf.add_att("history", "Created from raw data") ) return false;
+      return 1;
+  if (! ncf.add_att("title", TITLE) ) return 1;
+  if (! ncf.add_att("Institution", INSTITUTION) ) return 1;
+  if (! ncf.add_att("Type", TYPE) ) return 1;
+  if (! ncf.add_att("Version", NCVERSION) ) return 1;
+  if (! ncf.add_att("Conventions", "COARDS") ) return 1;
+  if (! ncf.add_att("history", "Created from raw data") ) return 1;
 
   // Dimensions
 
   tdim = ncf.add_dim("time");
-  if (!tdim->is_valid()) return false;
+  if (!tdim->is_valid()) return 1;
   ldim = ncf.add_dim("line", hg);
-  if (!ldim->is_valid()) return false;
+  if (!ldim->is_valid()) return 1;
   cdim = ncf.add_dim("column", wd);
-  if (!cdim->is_valid()) return false;
+  if (!cdim->is_valid()) return 1;
   caldim = ncf.add_dim("calibration", ncal);
-  if (!caldim->is_valid()) return false;
+  if (!caldim->is_valid()) return 1;
 
   // Add Calibration values
   NcVar *cvar = ncf.add_var("calibration", ncFloat, caldim);
-  if (!cvar->is_valid()) return false;
+  if (!cvar->is_valid()) return 1;
   cvar->add_att("long_name", "Calibration coefficients");
   cvar->add_att("variable", db1.get_channel_INFO_variable( ));
   cvar->add_att("units", db1.get_channel_INFO_units( ));
-  if (!cvar->put(cal, ncal)) return false;
+  if (!cvar->put(cal, ncal)) return 1;
 
   tvar = ncf.add_var("time", ncDouble, tdim);
-  if (!tvar->is_valid()) return false;
+  if (!tvar->is_valid()) return 1;
   tvar->add_att("long_name", "Time");
   tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
   double atime;
@@ -182,16 +182,16 @@ int main (int argc, char *argv[])
   tmtime.tm_sec = second;
   ttime = mktime(&tmtime);
   atime = ttime - 946684800 - timezone;
-  if (!tvar->put(&atime, 1)) return false;
+  if (!tvar->put(&atime, 1)) return 1;
 
   ivar = ncf.add_var(db1.get_channel_INFO_name( ), ncShort, tdim, ldim, cdim);
-  if (!ivar->is_valid()) return false;
-  if (!ivar->add_att("add_offset", 0.0)) return false;
-  if (!ivar->add_att("scale_factor", 1.0)) return false;
-  if (!ivar->add_att("chnum", db1.chname_to_chnum(argv[2]))) return false;
+  if (!ivar->is_valid()) return 1;
+  if (!ivar->add_att("add_offset", 0.0)) return 1;
+  if (!ivar->add_att("scale_factor", 1.0)) return 1;
+  if (!ivar->add_att("chnum", db1.chname_to_chnum(argv[2]))) return 1;
 
   // Write output values
-  if (!ivar->put((const short int *) pixels, 1, hg, wd)) return false;
+  if (!ivar->put((const short int *) pixels, 1, hg, wd)) return 1;
 
   // Close NetCDF output
   (void) ncf.close( );
-- 
2.43.0


From 934cc98f827427e8a8f64658f6326c65c4e714c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 126/138] fix: db1_to_netcdf used uninitialised dates when the
 start time cannot be read

---
 tools/thornsds_db1/db1_to_netcdf.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/thornsds_db1/db1_to_netcdf.cpp b/tools/thornsds_db1/db1_to_netcdf.cpp
index ecc06c2..eeeabde 100644
--- a/tools/thornsds_db1/db1_to_netcdf.cpp
+++ b/tools/thornsds_db1/db1_to_netcdf.cpp
@@ -117,8 +117,12 @@ int main (int argc, char *argv[])
   if (! ncf.add_att("Satellite", db1.get_INFO_satellite_name( )))
 	            return 1;
   int year,month,day,hour,minute,second;
-  sscanf(db1.get_INFO_schedule_start( ), "%02d/%02d/%04d %02d:%02d:%02d.000",
-         &day, &month, &year, &hour, &minute, &second);
+  if (sscanf(db1.get_INFO_schedule_start( ), "%02d/%02d/%04d %02d:%02d:%02d.000",
+             &day, &month, &year, &hour, &minute, &second) != 6)
+  {
+    std::cerr << "Exit: invalid start time." << std::endl;
+    return 1;
+  }
   sprintf(reftime, "%04d-%02d-%02d %02d:%02d:%02d UTC",
           year, month, day, hour, minute, second);
   if (! ncf.add_att("Antenna", "Fixed") ) return 1;
-- 
2.43.0


From 5cd9b26281d10e36af4942fdd5c6282acb640ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 127/138] fix: db1_to_netcdf wrote a wrong time coordinate in
 zones with daylight saving time

---
 tools/thornsds_db1/db1_to_netcdf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tools/thornsds_db1/db1_to_netcdf.cpp b/tools/thornsds_db1/db1_to_netcdf.cpp
index eeeabde..bef3470 100644
--- a/tools/thornsds_db1/db1_to_netcdf.cpp
+++ b/tools/thornsds_db1/db1_to_netcdf.cpp
@@ -84,7 +84,7 @@ int main (int argc, char *argv[])
     if (outname[i] == ':') outname[i] = '-';
   }
 
-  struct tm tmtime;
+  struct tm tmtime = {};
   char reftime[64];
   int wd = db1.get_INFO_image_pixels( );
   int hg = db1.get_INFO_image_lines( );
@@ -177,15 +177,14 @@ int main (int argc, char *argv[])
   tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
   double atime;
   time_t ttime;
-  extern long timezone;
   tmtime.tm_year = year - 1900;
   tmtime.tm_mon = month - 1;
   tmtime.tm_mday = day;
   tmtime.tm_hour = hour;
   tmtime.tm_min = minute;
   tmtime.tm_sec = second;
-  ttime = mktime(&tmtime);
-  atime = ttime - 946684800 - timezone;
+  ttime = timegm(&tmtime);
+  atime = ttime - 946684800;
   if (!tvar->put(&atime, 1)) return 1;
 
   ivar = ncf.add_var(db1.get_channel_INFO_name( ), ncShort, tdim, ldim, cdim);
-- 
2.43.0


From b4f311b3e537d3a89198e39517d3f87e3ae94bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 128/138] fix: db1_to_netcdf wrote the line offset as column
 offset and the other way round

---
 tools/thornsds_db1/db1_to_netcdf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/thornsds_db1/db1_to_netcdf.cpp b/tools/thornsds_db1/db1_to_netcdf.cpp
index bef3470..f8eeaf6 100644
--- a/tools/thornsds_db1/db1_to_netcdf.cpp
+++ b/tools/thornsds_db1/db1_to_netcdf.cpp
@@ -101,8 +101,8 @@ int main (int argc, char *argv[])
   float sublon = 0.0;
   int cfac = db1.get_AoI_cfac( );
   int lfac = db1.get_AoI_lfac( );
-  int loff = db1.get_AoI_coff( );
-  int coff = db1.get_AoI_loff( );
+  int coff = db1.get_AoI_coff( );
+  int loff = db1.get_AoI_loff( );
   int spix = 1;
   int slin = 1;
   float sh = 42164.0;
-- 
2.43.0


From a7e67b1dc129d54a6221f274eb360ddd4ef85962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 129/138] fix: db1_to_image ignored the name of its overlay
 image

---
 tools/thornsds_db1/db1_to_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index 1e5cf2d..df7006e 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -110,7 +110,7 @@ int main (int argc, char *argv[])
   if (image_overlay)
   {
     Magick::Image overlay;
-    overlay.read("SEVIRI_OVERLAY.pgm");
+    overlay.read(image_overlay);
     image->composite(overlay, 0, 0, Magick::PlusCompositeOp);
   }
 
-- 
2.43.0


From 35f60259361e818f0b76234bff05a9b2d766c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:12 +0000
Subject: [PATCH 130/138] fix: db1_to_image was ended by exceptions when an
 image cannot be read or written

---
 tools/thornsds_db1/db1_to_image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index df7006e..0220cfc 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -35,6 +35,7 @@
 #include <msat/thornsds_db1/thornsds_db1.h>
 
 int main (int argc, char *argv[])
+try
 {
   MSG_db1_data db1;
   char *format;
@@ -123,3 +124,8 @@ int main (int argc, char *argv[])
   db1.close( );
   return 0;
 }
+catch (std::exception& e)
+{
+  std::cerr << argv[0] << ": " << e.what( ) << std::endl;
+  return -1;
+}
-- 
2.43.0


From c8a07b88bc22acda51e20ced64446d4e567938e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:00 +0000
Subject: [PATCH 131/138] fix: a GDALTranslate with ground control points freed
 them at its first use

---
 msat/gdal/gdaltranslate.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 3a05e05..5914071 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -90,6 +90,8 @@ GDALTranslate::GDALTranslate()
 GDALTranslate::~GDALTranslate()
 {
     CPLFree( panBandList );
+    GDALDeinitGCPs( nGCPCount, pasGCPs );
+    CPLFree( pasGCPs );
     CSLDestroy( papszCreateOptions );
     CSLDestroy( papszMetadataOptions );
 }
@@ -415,9 +417,6 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             pszGCPProjection = "";
 
         poVDS->SetGCPs( nGCPCount, pasGCPs, pszGCPProjection );
-
-        GDALDeinitGCPs( nGCPCount, pasGCPs );
-        CPLFree( pasGCPs );
     }
 
     else if( GDALGetGCPCount( hDataset ) > 0 )
-- 
2.43.0


From 0eb1d7d9d22ec4cce604b080d69eab81e58fe7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:00 +0000
Subject: [PATCH 132/138] fix: GDALTranslate read past the list of bands after
 expanding a palette

---
 msat/gdal/gdaltranslate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 5914071..11d50a2 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -488,7 +488,7 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
         }
         else
             poSrcBand = ((GDALDataset *) 
-                        hDataset)->GetRasterBand(panBandList[i]);
+                        hDataset)->GetRasterBand(panBandList[nRGBExpand != 0 ? i - nRGBExpand + 1 : i]);
 
 /* -------------------------------------------------------------------- */
 /*      Select output data type to match source.                        */
-- 
2.43.0


From eb2553a7f5b876865798f9d073001aff97820cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:47 +0000
Subject: [PATCH 133/138] fix: messages that could not be written completely
 left incomplete files

---
 msat/hrit/MSG_data.cpp     | 5 +++++
 msat/hrit/MSG_data_gts.cpp | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index f8fda78..a9bd5f5 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <cstdio>
 #include <string>
 #include <cstring>
 #include <fstream>
@@ -336,7 +337,11 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
         os.write((char *) dbuff, (size_t) dsize);
         os.close( );
         if (!os.good())
+        {
+          // An incomplete message is not left behind
+          std::remove(outname.c_str( ));
           throw std::runtime_error("cannot write " + outname);
+        }
       }
       break;
 
diff --git a/msat/hrit/MSG_data_gts.cpp b/msat/hrit/MSG_data_gts.cpp
index b44f322..11cfdcb 100644
--- a/msat/hrit/MSG_data_gts.cpp
+++ b/msat/hrit/MSG_data_gts.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <cstdio>
 #include <fstream>
 #include <cstring>
 #include <stdexcept>
@@ -82,10 +83,16 @@ void MSG_data_gts::dump(std::string filename)
 {
   std::ofstream outs;
   outs.open(filename.c_str( ));
+  if (!outs.good( ))
+    throw std::runtime_error("cannot write " + filename);
   outs.write((char_1 *) mbuff, msize);
   outs.close( );
   if (!outs.good( ))
+  {
+    // An incomplete message is not left behind
+    std::remove(filename.c_str( ));
     throw std::runtime_error("cannot write " + filename);
+  }
   return;
 }
 
-- 
2.43.0


From 5adaac6af6ed2ef46de07b5c5738fdbbc3ffbb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:47 +0000
Subject: [PATCH 134/138] fix: MSG_header lost the memory of repeated records
 and of headers its constructor refused

---
 msat/hrit/MSG_header.cpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index f85de43..7b72487 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -57,7 +57,13 @@ MSG_header::MSG_header( std::ifstream &in )
   key = 0;
   segment_id = 0;
   segment_quality = 0;
-  this->read_from(in);
+  try
+  {
+    this->read_from(in);
+  } catch (...) {
+    clear( );
+    throw;
+  }
 }
 
 MSG_header::~MSG_header( )
@@ -87,6 +93,14 @@ void MSG_header::clear( )
   segment_quality = 0;
 }
 
+// A record that comes again takes the place of the first one
+template<typename T> static void renew( T *&record )
+{
+  T *fresh = new T;
+  delete record;
+  record = fresh;
+}
+
 void MSG_header::read_from( std::ifstream &in )
 {
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
@@ -151,7 +165,7 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("HRIT image structure header has an invalid length");
         }
-        image_structure = new MSG_header_image_struct;
+        renew(image_structure);
         image_structure->read_from(pnt);
         pnt = pnt + MSG_IMAGE_STRUCTURE_LEN;
         left = left - MSG_IMAGE_STRUCTURE_LEN;
@@ -163,14 +177,14 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("HRIT image navigation header has an invalid length");
         }
-        image_navigation = new MSG_header_image_navig;
+        renew(image_navigation);
         image_navigation->read_from(pnt);
         pnt = pnt + MSG_IMAGE_NAVIGATION_LEN;
         left = left - MSG_IMAGE_NAVIGATION_LEN;
         break;
       case MSG_HEADER_IMAGE_DATA_FUNCTION:
         hunk_size = (size_t) get_ui2(pnt+1);
-        image_data_function = new MSG_header_image_datafunc;
+        renew(image_data_function);
         image_data_function->read_from(pnt);
         pnt = pnt + hunk_size;
         left = left - hunk_size;
@@ -182,7 +196,7 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("HRIT annotation header has an invalid length");
         }
-        annotation = new MSG_header_annotation;
+        renew(annotation);
         annotation->read_from(pnt);
         pnt = pnt + MSG_ANNOTATION_LEN;
         left = left - MSG_ANNOTATION_LEN;
@@ -194,14 +208,14 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("HRIT timestamp header has an invalid length");
         }
-        timestamp = new MSG_header_timestamp;
+        renew(timestamp);
         timestamp->read_from(pnt);
         pnt = pnt + MSG_TIMESTAMP_LEN;
         left = left - MSG_TIMESTAMP_LEN;
         break;
       case MSG_HEADER_ANCILLARY_TEXT:
         hunk_size = (size_t) get_ui2(pnt+1);
-        ancillary_text = new MSG_header_ancillary_text;
+        renew(ancillary_text);
         ancillary_text->read_from(pnt);
         pnt = pnt + hunk_size;
         left = left - hunk_size;
@@ -213,7 +227,7 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("HRIT key header has an invalid length");
         }
-        key = new MSG_header_key;
+        renew(key);
         key->read_from(pnt);
         pnt = pnt + MSG_KEY_LEN;
         left = left - MSG_KEY_LEN;
@@ -225,7 +239,7 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("HRIT segment identification header has an invalid length");
         }
-        segment_id = new MSG_header_segment_id;
+        renew(segment_id);
         segment_id->read_from(pnt);
         pnt = pnt + MSG_SEGMENT_ID_LEN;
         left = left - MSG_SEGMENT_ID_LEN;
@@ -235,7 +249,7 @@ void MSG_header::read_from( std::ifstream &in )
             get_ui2(pnt+1) < 3 + (size_t) image_structure->number_of_lines
                              * MSG_SEGMENT_QUALITY_RECORD_LEN)
           throw std::runtime_error("HRIT line quality header has an invalid length");
-        segment_quality = new MSG_header_segment_quality;
+        renew(segment_quality);
         segment_quality->read_from(pnt, image_structure->number_of_lines);
         hqlen = get_ui2(pnt+1);
         pnt = pnt + hqlen;
-- 
2.43.0


From e77dfc653a9f35803e3470c8df8dac465c3d34a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:47 +0000
Subject: [PATCH 135/138] fix: FileAccess lost the memory of its searches that
 failed

---
 msat/xrit/fileaccess.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index cd07433..8620085 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -210,10 +210,16 @@ std::string FileAccess::prologueFile() const
   globbuf.gl_offs = 1;
 
   if ((glob(filename.c_str(), GLOB_DOOFFS, NULL, &globbuf)) != 0)
+  {
+    globfree(&globbuf);
     throw std::runtime_error("No such file(s)");
+  }
 
   if (globbuf.gl_pathc > 1)
+  {
+    globfree(&globbuf);
     throw std::runtime_error("Non univoque prologue file.... Do not trust calibration.");
+  }
 
 	string res(globbuf.gl_pathv[1]);
   globfree(&globbuf);
@@ -236,10 +242,16 @@ std::string FileAccess::epilogueFile() const
   globbuf.gl_offs = 1;
 
   if ((glob(filename.c_str(), GLOB_DOOFFS, NULL, &globbuf)) != 0)
+  {
+    globfree(&globbuf);
     throw std::runtime_error("No such file(s)");
+  }
 
   if (globbuf.gl_pathc > 1)
+  {
+    globfree(&globbuf);
     throw std::runtime_error("Non univoque prologue file.... Do not trust calibration.");
+  }
 
 	string res(globbuf.gl_pathv[1]);
   globfree(&globbuf);
@@ -261,7 +273,10 @@ std::vector<std::string> FileAccess::segmentFiles() const
     globbuf.gl_offs = 1;
 
     if ((glob(filename.c_str( ), GLOB_DOOFFS, NULL, &globbuf)) != 0)
+    {
+        globfree(&globbuf);
         throw std::runtime_error("No such file(s)");
+    }
 
     std::vector<std::string> res;
     for (size_t i = 0; i < globbuf.gl_pathc; ++i)
-- 
2.43.0


From f87da5bded0db1b0ff4fb4e80eea5d73df3bcc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:47 +0000
Subject: [PATCH 136/138] fix: the NetCDF drivers lost the memory of the
 attributes they read

---
 gdal/netcdf/netcdf.cpp   | 16 ++++++++--------
 gdal/netcdf/netcdf24.cpp | 24 +++++++++++++++---------
 gdal/netcdf/utils.cpp    | 21 +++++++++------------
 gdal/netcdf/utils.h      | 14 +++++++++++---
 4 files changed, 43 insertions(+), 32 deletions(-)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index df3295b..ad96bf8 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -50,8 +50,8 @@ public:
         NcFile& ncf = *nc;
 
         // Compute geotransform matrix
-        NcAtt* asp = ncf.get_att("AreaStartPix");
-        NcAtt* asl = ncf.get_att("AreaStartLin");
+        std::unique_ptr<NcAtt> asp(ncf.get_att("AreaStartPix"));
+        std::unique_ptr<NcAtt> asl(ncf.get_att("AreaStartLin"));
         if (asp && asl)
         {
             const int column_offset = getAttr<int>(ncf, "Column_Offset", 1856);
@@ -84,8 +84,8 @@ public:
     MsatNetCDFRasterBand(NetCDFDataset* ds, int idx, NcVar* var) : NetCDFRasterBand(ds, idx, var), offset1bug(false)
     {
         /// Channel
-        NcAtt* a = var->get_att("chnum");
-        if (a != NULL)
+        std::unique_ptr<NcAtt> a(var->get_att("chnum"));
+        if (a)
         {
             channel_id = getAttr<int>(*a);
 
@@ -100,7 +100,7 @@ public:
             channel_id = 0;
 
         // Detect the old encoding bug that set offset to 1 instead of 0
-        string version = getAttr<const char*>(*ds->nc, "Version", "0");
+        string version = getAttr<std::string>(*ds->nc, "Version", "0");
         offset1bug = (version == "0");
     }
 
@@ -147,7 +147,7 @@ bool NetCDFDataset::init()
 
 
         /// Spacecraft
-        stmp = getAttr<const char*>(ncf, "Satellite", "");
+        stmp = getAttr<std::string>(ncf, "Satellite", "");
         if (!stmp.empty())
         {
                 spacecraft_id = facts::spacecraftID(stmp);
@@ -161,7 +161,7 @@ bool NetCDFDataset::init()
 
 
         /// Image time
-        stmp = getAttr<const char*>(ncf, "Time", "0000-00-00 00:00:00 UTC");
+        stmp = getAttr<std::string>(ncf, "Time", "0000-00-00 00:00:00 UTC");
         int year, month, day, hour, min, sec;
         if (sscanf(stmp.c_str(), "%04d-%02d-%02d %02d:%02d:%02d UTC",
                                 &year, &month, &day, &hour, &min, &sec) != 6)
@@ -238,7 +238,7 @@ GDALDataset* NetCDFOpen(GDALOpenInfo* info)
     try {
         nc.reset(new NcFile(info->pszFilename, NcFile::ReadOnly));
         if (!nc->is_valid()) return NULL;
-        if (nc->get_att("Satellite") == NULL)
+        if (!std::unique_ptr<NcAtt>(nc->get_att("Satellite")))
             return NULL;
     } catch (...) {
         return NULL;
diff --git a/gdal/netcdf/netcdf24.cpp b/gdal/netcdf/netcdf24.cpp
index 8dd7c99..4284ec7 100644
--- a/gdal/netcdf/netcdf24.cpp
+++ b/gdal/netcdf/netcdf24.cpp
@@ -79,7 +79,7 @@ public:
     NetCDF24RasterBand(NetCDF24Dataset* ds, int idx, NcVar* var) : NetCDFRasterBand(ds, idx, var)
     {
         /// Channel
-        if (NcAtt* a = var->get_att("L1"))
+        if (std::unique_ptr<NcAtt> a{var->get_att("L1")})
         {
             channel_id = getAttr<int>(*a);
 
@@ -149,7 +149,7 @@ bool NetCDF24Dataset::init()
                 CPLError(CE_Failure, CPLE_AppDefined, "Projection variable not found");
                 return false;
         }
-        if (NcAtt* a = proj->get_att("Lop"))
+        if (std::unique_ptr<NcAtt> a{proj->get_att("Lop")})
         {
                 dataset::set_spaceview(osr, getAttr<float>(*a));
 
@@ -160,42 +160,48 @@ bool NetCDF24Dataset::init()
                 column_offset = PGET(int, "Xp");
                 line_offset =   PGET(int, "Yp");
 #endif
-                if (!(a = proj->get_att("Xp")))
+                a.reset(proj->get_att("Xp"));
+                if (!a)
                 {
                         CPLError(CE_Failure, CPLE_AppDefined, "Projection variable does not have Xp attribute");
                         return false;
                 }
                 long column_offset = getAttr<int>(*a);
 
-                if (!(a = proj->get_att("Yp")))
+                a.reset(proj->get_att("Yp"));
+                if (!a)
                 {
                         CPLError(CE_Failure, CPLE_AppDefined, "Projection variable does not have Yp attribute");
                         return false;
                 }
                 long line_offset = getAttr<int>(*a);
 
-                if (!(a = proj->get_att("X0")))
+                a.reset(proj->get_att("X0"));
+                if (!a)
                 {
                         CPLError(CE_Failure, CPLE_AppDefined, "Projection variable does not have X0 attribute");
                         return false;
                 }
                 long x0 = getAttr<int>(*a) - 1;
 
-                if (!(a = proj->get_att("Y0")))
+                a.reset(proj->get_att("Y0"));
+                if (!a)
                 {
                         CPLError(CE_Failure, CPLE_AppDefined, "Projection variable does not have Y0 attribute");
                         return false;
                 }
                 long y0 = getAttr<int>(*a) - 1;
 
-                if (!(a = proj->get_att("DX")))
+                a.reset(proj->get_att("DX"));
+                if (!a)
                 {
                         CPLError(CE_Failure, CPLE_AppDefined, "Projection variable does not have DX attribute");
                         return false;
                 }
                 double psx = facts::pixelHSizeFromSeviriDX(getAttr<int>(*a));
 
-                if (!(a = proj->get_att("DY")))
+                a.reset(proj->get_att("DY"));
+                if (!a)
                 {
                         CPLError(CE_Failure, CPLE_AppDefined, "Projection variable does not have DY attribute");
                         return false;
@@ -262,7 +268,7 @@ GDALDataset* NetCDF24Open(GDALOpenInfo* info)
     try {
         nc.reset(new NcFile(info->pszFilename, NcFile::ReadOnly));
         if (!nc->is_valid()) return NULL;
-        if (nc->get_att("GribEditionNumber") == NULL)
+        if (!std::unique_ptr<NcAtt>(nc->get_att("GribEditionNumber")))
             return NULL;
     } catch (...) {
         return NULL;
diff --git a/gdal/netcdf/utils.cpp b/gdal/netcdf/utils.cpp
index deb7ccf..5b9a527 100644
--- a/gdal/netcdf/utils.cpp
+++ b/gdal/netcdf/utils.cpp
@@ -69,7 +69,7 @@ NetCDFRasterBand::NetCDFRasterBand(GDALDataset* ds, int idx, NcVar* var) : var(v
         nBlockYSize = var->get_dim(1)->size();
 
         // Choose data type
-        string _Unsigned = getAttr(*var, "_Unsigned", "false");
+        string _Unsigned = getAttr<std::string>(*var, "_Unsigned", "false");
         _unsigned = _Unsigned == "true";
         switch (var->type())
         {
@@ -88,18 +88,15 @@ NetCDFRasterBand::NetCDFRasterBand(GDALDataset* ds, int idx, NcVar* var) : var(v
 const char* NetCDFRasterBand::GetUnitType()
 {
         NcError nce(NcError::silent_nonfatal);
-        NcAtt* a = var->get_att("units");
-        if (a != NULL)
-                return getAttr<const char*>(*a);
-        else
-                return "";
+        unit = getAttr<std::string>(*var, "units", "");
+        return unit.c_str();
 }
 
 double NetCDFRasterBand::GetOffset(int* pbSuccess)
 {
         NcError nce(NcError::silent_nonfatal);
-        NcAtt* a = var->get_att("add_offset");
-        if (a != NULL)
+        std::unique_ptr<NcAtt> a(var->get_att("add_offset"));
+        if (a)
         {
                 if (pbSuccess) *pbSuccess = TRUE;
                 double res = getAttr<double>(*a);
@@ -113,8 +110,8 @@ double NetCDFRasterBand::GetOffset(int* pbSuccess)
 double NetCDFRasterBand::GetScale(int* pbSuccess)
 {
         NcError nce(NcError::silent_nonfatal);
-        NcAtt* a = var->get_att("scale_factor");
-        if (a != NULL)
+        std::unique_ptr<NcAtt> a(var->get_att("scale_factor"));
+        if (a)
         {
                 if (pbSuccess) *pbSuccess = TRUE;
                 return getAttr<double>(*a);
@@ -127,7 +124,7 @@ double NetCDFRasterBand::GetScale(int* pbSuccess)
 double NetCDFRasterBand::GetNoDataValue(int* pbSuccess)
 {
         NcError nce(NcError::silent_nonfatal);
-        if (NcAtt* a = var->get_att("_FillValue"))
+        if (std::unique_ptr<NcAtt> a{var->get_att("_FillValue")})
         {
                 if (pbSuccess) *pbSuccess = TRUE;
                 if (_unsigned)
@@ -143,7 +140,7 @@ double NetCDFRasterBand::GetNoDataValue(int* pbSuccess)
                         return getAttr<double>(*a);
         }
 
-        if (NcAtt* a = var->get_att("missing_value"))
+        if (std::unique_ptr<NcAtt> a{var->get_att("missing_value")})
         {
                 if (pbSuccess) *pbSuccess = TRUE;
                 return getAttr<double>(*a);
diff --git a/gdal/netcdf/utils.h b/gdal/netcdf/utils.h
index 33cedad..1dd4c21 100644
--- a/gdal/netcdf/utils.h
+++ b/gdal/netcdf/utils.h
@@ -23,6 +23,8 @@
 #include <netcdfcpp.h>
 #include <stdexcept>
 #include <gdal_priv.h>
+#include <memory>
+#include <string>
 
 namespace msat {
 namespace netcdf {
@@ -36,13 +38,18 @@ template<> inline short getAttr<short>(const NcAtt& a) { return a.num_vals() > 0
 template<> inline int getAttr<int>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_int(0) : 0; }
 template<> inline float getAttr<float>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_float(0) : 0; }
 template<> inline double getAttr<double>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_double(0) : 0; }
-template<> inline const char* getAttr<const char*>(const NcAtt& a) { return a.num_vals() > 0 ? a.as_string(0) : ""; }
+template<> inline std::string getAttr<std::string>(const NcAtt& a)
+{
+        if (a.num_vals() == 0) return std::string();
+        std::unique_ptr<char[]> s(a.as_string(0));
+        return s.get();
+}
 
 template<typename Sample, typename NC>
 static inline Sample getAttr(const NC& el, const char* name, Sample def)
 {
-        NcAtt* a = el.get_att(name);
-        if (a == NULL || a->num_vals() == 0) return def;
+        std::unique_ptr<NcAtt> a(el.get_att(name));
+        if (!a || a->num_vals() == 0) return def;
         return getAttr<Sample>(*a);
 }
 
@@ -67,6 +74,7 @@ public:
         NcVar* var;
         bool _unsigned;
         int channel_id;
+        std::string unit;
 
         NetCDFRasterBand(GDALDataset* ds, int idx, NcVar* var);
 
-- 
2.43.0


From cce1eb5a45429edeb0441710edf62a2a532c2213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:21 +0000
Subject: [PATCH 137/138] fix: images whose requested product cannot be
 computed were never closed

The dataset opened by the driver was lost, with its file descriptor, when
MSAT_COMPUTE asked for a product that it cannot give.
---
 gdal/reflectance/reflectance.cpp |  7 +++++--
 gdal/utils.cpp                   | 19 ++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index fac7896..72fc603 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -29,6 +29,11 @@ ReflectanceDataset::~ReflectanceDataset()
 
 void ReflectanceDataset::add_source(GDALDataset* ds, bool take_ownership)
 {
+    // Own the source from the start, so that it is deleted also when it cannot
+    // be used
+    if (take_ownership)
+        owned_datasets.insert(ds);
+
     for (int i = 1; i <= ds->GetRasterCount(); ++i)
     {
         GDALRasterBand* rb = ds->GetRasterBand(i);
@@ -41,8 +46,6 @@ void ReflectanceDataset::add_source(GDALDataset* ds, bool take_ownership)
         add_info(ds, "ReflectanceDataset");
 
         sources[id - 1] = rb;
-        if (take_ownership)
-            owned_datasets.insert(ds);
     }
 }
 
diff --git a/gdal/utils.cpp b/gdal/utils.cpp
index 6e0f524..7a0d016 100644
--- a/gdal/utils.cpp
+++ b/gdal/utils.cpp
@@ -13,11 +13,12 @@ using namespace std;
 namespace msat {
 namespace gdal {
 
-GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
+GDALDataset* add_extras(GDALDataset* dataset, GDALOpenInfo* info)
 {
+    unique_ptr<GDALDataset> src(dataset);
 #if GDAL_VERSION_MAJOR >= 2
     int idx = CSLFindName(info->papszOpenOptions, "MSAT_COMPUTE");
-    if (idx == -1) return src;
+    if (idx == -1) return src.release();
     std::string val(CPLParseNameValue(info->papszOpenOptions[idx], nullptr));
 
     if (val == "reflectance")
@@ -31,29 +32,25 @@ GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
             throw std::runtime_error("IR 0.39 reflectance cannot yet be computed via MSAT_COMPUTE open option");
 
         unique_ptr<msat::utils::ReflectanceDataset> rds(new msat::utils::ReflectanceDataset(channel_id));
-        rds->add_source(src, true);
+        rds->add_source(src.release(), true);
         rds->init_rasterband();
         return rds.release();
     } else if (val == "sat_za") {
-        unique_ptr<msat::utils::SatZADataset> rds(new msat::utils::SatZADataset(src));
-        delete src;
+        unique_ptr<msat::utils::SatZADataset> rds(new msat::utils::SatZADataset(src.get()));
         return rds.release();
     } else if (val == "cos_sol_za") {
-        unique_ptr<msat::utils::CosSolZADataset> rds(new msat::utils::CosSolZADataset(src));
-        delete src;
+        unique_ptr<msat::utils::CosSolZADataset> rds(new msat::utils::CosSolZADataset(src.get()));
         return rds.release();
     } else if (val == "jday") {
-        unique_ptr<msat::utils::JDayDataset> rds(new msat::utils::JDayDataset(src));
-        delete src;
+        unique_ptr<msat::utils::JDayDataset> rds(new msat::utils::JDayDataset(src.get()));
         return rds.release();
     } else {
-        delete src;
         CPLError(CE_Failure, CPLE_AppDefined, "Unsupported value '%s' for MSAT_COMPUTE", val.c_str());
         return nullptr;
     }
 #endif
 
-    return src;
+    return src.release();
 }
 
 }
-- 
2.43.0


From d3ee09eaa9e874d57aabb5074ced09586e09859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:21 +0000
Subject: [PATCH 138/138] fix: the NetCDF drivers threw exceptions through GDAL
 for products that cannot be computed

---
 gdal/netcdf/netcdf.cpp   | 8 +++++++-
 gdal/netcdf/netcdf24.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index ad96bf8..006cb1d 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -251,7 +251,13 @@ GDALDataset* NetCDFOpen(GDALOpenInfo* info)
     // NetCDF data
     if (!ds->init()) return NULL;
 
-    return msat::gdal::add_extras(ds.release(), info);
+    try {
+        return msat::gdal::add_extras(ds.release(), info);
+    } catch (std::exception& e) {
+        // GDAL cannot propagate exceptions
+        CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+        return NULL;
+    }
 }
 
 GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src, 
diff --git a/gdal/netcdf/netcdf24.cpp b/gdal/netcdf/netcdf24.cpp
index 4284ec7..33aba4f 100644
--- a/gdal/netcdf/netcdf24.cpp
+++ b/gdal/netcdf/netcdf24.cpp
@@ -281,7 +281,13 @@ GDALDataset* NetCDF24Open(GDALOpenInfo* info)
     // NetCDF data
     if (!ds->init()) return NULL;
 
-    return msat::gdal::add_extras(ds.release(), info);
+    try {
+        return msat::gdal::add_extras(ds.release(), info);
+    } catch (std::exception& e) {
+        // GDAL cannot propagate exceptions
+        CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+        return NULL;
+    }
 }
 
 GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src, 
-- 
2.43.0

