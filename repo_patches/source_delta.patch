From 33b18c907b7b6a5829ffbfe686e5287891835ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 001/161] fix: binding a deleted image name takes it off the
 free list

ilGenImages handed the same name out again and replaced the live image.
---
 DevIL/src-IL/src/il_stack.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 286e898..b2af8d4 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -32,6 +32,7 @@ typedef struct iFree
 
 
 static ILboolean iEnlargeStack();
+static void iUseFreeName(ILuint Name);
 
 static ILuint		StackSize = 0;
 static ILuint		LastUsed = 0;
@@ -106,6 +107,7 @@ void ILAPIENTRY ilBindImage(ILuint Image)
 
 	if (ImageStack[Image] == NULL) {
 		ImageStack[Image] = ilNewImage(1, 1, 1, 1, 1);
+		iUseFreeName(Image);
 		if (Image >= LastUsed) // >= ?
 			LastUsed = Image + 1;
 	}
@@ -119,6 +121,26 @@ void ILAPIENTRY ilBindImage(ILuint Image)
 }
 
 
+// A deleted name that is bound again is in use: ilGenImages must not hand it out any more.
+static void iUseFreeName(ILuint Name)
+{
+	iFree *Cur = FreeNames, *Prev = NULL;
+
+	while (Cur != NULL) {
+		if (Cur->Name == Name) {
+			if (Prev == NULL)
+				FreeNames = (iFree*)Cur->Next;
+			else
+				Prev->Next = Cur->Next;
+			ifree(Cur);
+			return;
+		}
+		Prev = Cur;
+		Cur = (iFree*)Cur->Next;
+	}
+}
+
+
 //! Deletes Num images from the image stack - similar to glDeleteTextures().
 void ILAPIENTRY ilDeleteImages(ILsizei Num, const ILuint *Images)
 {
@@ -700,8 +722,10 @@ ILAPI void ILAPIENTRY iBindImageTemp()
 		LastUsed = 2;
 	CurName = 1;
 	ParentImage = IL_TRUE;
-	if (!ImageStack[1])
+	if (!ImageStack[1]) {
 		ImageStack[1] = ilNewImage(1, 1, 1, 1, 1);
+		iUseFreeName(1);
+	}
 	iCurImage = ImageStack[1];
 
 	return;
-- 
2.43.0


From 18d3edf829e52e485da2bdc2cdfcaae909c35dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 002/161] fix: ilCloneCurImage leaves the source image's name
 bound

The current name was left at the clone while the current image was the source.
---
 DevIL/src-IL/src/il_devil.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c9eeb5d..f87e884 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1090,7 +1090,7 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 
 ILuint ILAPIENTRY ilCloneCurImage()
 {
-	ILuint Id;
+	ILuint Id = 0, CurName;
 	ILimage *CurImage;
 	
 	if (iCurImage == NULL) {
@@ -1103,11 +1103,13 @@ ILuint ILAPIENTRY ilCloneCurImage()
 		return 0;
 	
 	CurImage = iCurImage;
+	CurName = ilGetCurName();
 	
 	ilBindImage(Id);
 	ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data);
 	ilCopyImageAttr(iCurImage, CurImage);
 	
+	ilBindImage(CurName);
 	iCurImage = CurImage;
 	
 	return Id;
-- 
2.43.0


From 83f08f3adec8343a0c6aea61cf71c84ae2705070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 003/161] fix: a refused ilTexImage leaves the image intact

An invalid type (or no memory) freed the image's data, palette and chains and
left the dangling pointers in place; ilNewImage* freed an uninitialised pointer.
---
 DevIL/src-IL/src/il_devil.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index f87e884..a59ff04 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -19,13 +19,15 @@
 ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
 	ILubyte BpcType = ilGetBpcType(Type);
+
+	// The callers release what the image holds when this fails.
+	memset(Image, 0, sizeof(ILimage));
+
 	if (BpcType == 0) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
-	memset(Image, 0, sizeof(ILimage));
-
 	////
 	if (Width  == 0) Width = 1;
 	if (Height == 0) Height = 1;
@@ -132,11 +134,17 @@ ILboolean ILAPIENTRY ilTexImage(ILuint Width, ILuint Height, ILuint Depth, ILuby
 // Internal version of ilTexImage.
 ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
+	ILimage NewImage;
+
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	// The image stays as it was when the new one cannot be made.
+	if (!ilInitImage(&NewImage, Width, Height, Depth, Bpp, Format, Type, Data))
+		return IL_FALSE;
+
 	////
 
 	// Not sure if we should be getting rid of the palette...
@@ -162,7 +170,9 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 	return IL_FALSE;
 	}*/
 
-	return ilInitImage(Image, Width, Height, Depth, Bpp, Format, Type, Data);
+	*Image = NewImage;
+
+	return IL_TRUE;
 }
 
 
@@ -193,13 +203,17 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 	ILimage* layers;
 	ILenum flags;
 	ILenum origin;
-	ILboolean retval;
+	ILimage NewImage;
 
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	// The image stays as it was when the new one cannot be made.
+	if (!ilInitImage(&NewImage, Width, Height, Depth, Bpp, Format, Type, Data))
+		return IL_FALSE;
+
 	////
 
 	// Not sure if we should be getting rid of the palette...
@@ -227,7 +241,7 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 	flags = Image->CubeFlags;
 	origin = Image->Origin;
 
-	retval = ilInitImage(Image, Width, Height, Depth, Bpp, Format, Type, Data);
+	*Image = NewImage;
 
 	// reset our chains
 	Image->Mipmaps = mips;
@@ -237,7 +251,7 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 	Image->CubeFlags = flags;
 	Image->Origin = origin;
 
-	return retval;
+	return IL_TRUE;
 }
 
 
-- 
2.43.0


From 66030a6b54d5479f8794528f24f2b7f1efb9f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 004/161] fix: refuse images whose size does not fit into 32
 bits

The size of the data wrapped around: a buffer far too small for the
dimensions was allocated, and every later access went out of bounds.
---
 DevIL/src-IL/src/il_devil.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index a59ff04..493ac3b 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -35,6 +35,16 @@ ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Heig
 	Image->Width	   = Width;
 	Image->Height	   = Height;
 	Image->Depth	   = Depth;
+	// SizeOfData has to hold the size of the whole image.
+	if (Bpp == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	if (Width > 0xFFFFFFFFu / Bpp / BpcType || Height > 0xFFFFFFFFu / (Width * Bpp * BpcType)
+		|| Depth > 0xFFFFFFFFu / (Width * Bpp * BpcType * Height)) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return IL_FALSE;
+	}
 	Image->Bpp		   = Bpp;
 	Image->Bpc		   = BpcType;
 	Image->Bps		   = Width * Bpp * Image->Bpc;
-- 
2.43.0


From 605e3d544ce12a4a62b9414bfc7e77b9a01840e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 005/161] fix: copying image attributes leaked the previous
 animation list and, on failure, the new image

---
 DevIL/src-IL/src/il_devil.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 493ac3b..c726232 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1018,6 +1018,12 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 		Dest->DxtcSize = 0;
 	}
 	
+	if (Dest->AnimList) {
+		ifree(Dest->AnimList);
+		Dest->AnimList = NULL;
+		Dest->AnimSize = 0;
+	}
+
 	if (Src->AnimList && Src->AnimSize) {
 		Dest->AnimList = (ILuint*)ialloc(Src->AnimSize * sizeof(ILuint));
 		if (Dest->AnimList == NULL) {
@@ -1103,8 +1109,10 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 		return NULL;
 	}
 	
-	if (ilCopyImageAttr(Dest, Src) == IL_FALSE)
+	if (ilCopyImageAttr(Dest, Src) == IL_FALSE) {
+		ilCloseImage(Dest);
 		return NULL;
+	}
 	
 	memcpy(Dest->Data, Src->Data, Src->SizeOfData);
 	
-- 
2.43.0


From 9a27914d28ff71387b505162034e5db87c0e65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 006/161] fix: ilCopyImage with an unknown source, onto itself,
 or onto a sub-image

An unknown name was created and copied, copying an image onto itself read freed
memory, and copying onto a sub-image resized the base image but described the
sub-image.
---
 DevIL/src-IL/src/il_devil.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c726232..dc7bd1e 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1084,13 +1084,23 @@ ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 		return IL_FALSE;
 	}
 	
+	if (Src != 0 && !ilIsImage(Src)) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	
 	ilBindImage(Src);
 	SrcImage = iCurImage;
 	ilBindImage(DestName);
-	ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data);
-	ilCopyImageAttr(DestImage, SrcImage);
+	ilSetCurImage(DestImage);  // May be a sub-image.
 	
-	return IL_TRUE;
+	if (SrcImage == DestImage)
+		return IL_TRUE;
+	
+	if (!ilTexImage_(DestImage, SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data))
+		return IL_FALSE;
+	
+	return ilCopyImageAttr(DestImage, SrcImage);
 }
 
 
-- 
2.43.0


From 270b385f98d4d6354f10b020f804e0d12cd5d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 007/161] fix: closing a cube map leaked the mipmaps of its
 base image

---
 DevIL/src-IL/src/il_stack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index b2af8d4..4c0d835 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -244,7 +244,7 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 
 	if (Image->Faces != NULL) {
 		ilCloseImage(Image->Faces);
-		Image->Mipmaps = NULL;
+		Image->Faces = NULL;
 	}
 
 	if (Image->Mipmaps != NULL) {
-- 
2.43.0


From 8469204a85ef307d66c2de173f526835fd8eca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 008/161] fix: ilDeleteImages accepted a null array

---
 DevIL/src-IL/src/il_stack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 4c0d835..32fd61e 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -147,7 +147,7 @@ void ILAPIENTRY ilDeleteImages(ILsizei Num, const ILuint *Images)
 	iFree	*Temp = FreeNames;
 	ILuint	Index = 0;
 
-	if (Num < 1) {
+	if (Num < 1 || Images == NULL) {
 		//ilSetError(IL_INVALID_VALUE);
 		return;
 	}
-- 
2.43.0


From 01a78b2f816cfb8ac7ae5227239a207754aba46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 009/161] fix: ilShutDown left the current image pointing to
 freed memory

---
 DevIL/src-IL/src/il_stack.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 32fd61e..6824033 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -686,6 +686,8 @@ void ILAPIENTRY ilShutDown()
 	if (ImageStack)
 		ifree(ImageStack);
 	ImageStack = NULL;
+	iCurImage = NULL;  // It has just been freed.
+	CurName = 0;
 	LastUsed = 0;
 	StackSize = 0;
 	IsInit = IL_FALSE;
-- 
2.43.0


From 8cbcfc0ba8028c67ff1230c61cbc69722278938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 010/161] fix: a full error stack lost the second newest error
 instead of the oldest

---
 DevIL/src-IL/src/il_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 08796f6..159c7df 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -29,7 +29,7 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
-		for (i = 0; i < IL_ERROR_STACK_SIZE - 2; i++) {
+		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
 			ilErrorNum[i] = ilErrorNum[i+1];
 		}
 		ilErrorPlace = IL_ERROR_STACK_SIZE - 1;
-- 
2.43.0


From c39b5ff4fa3151fa0f271d1c299b7eeb63236283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 011/161] fix: ilPushAttrib dropped all pending errors and
 reset the hints

---
 DevIL/src-IL/src/il_states.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 752624b..f75c413 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -40,8 +40,8 @@ char* _ilSaveExt		= (char*)"" IL_BMP_EXT IL_CHEAD_EXT IL_DDS_EXT IL_EXR_EXT
 									IL_WBMP_EXT;
 
 
-//! Set all states to their defaults.
-void ilDefaultStates()
+// Sets the states of the current position on the stack to their defaults.
+static void iResetStates()
 {
 	ilStates[ilCurrentPos].ilOriginSet = IL_FALSE;
 	ilStates[ilCurrentPos].ilOriginMode = IL_ORIGIN_LOWER_LEFT;
@@ -95,6 +95,15 @@ void ilDefaultStates()
 
 
 
+	return;
+}
+
+
+//! Set all states to their defaults.
+void ilDefaultStates()
+{
+	iResetStates();
+
 	ilHints.MemVsSpeedHint = IL_FASTEST;
 	ilHints.CompressHint = IL_USE_COMPRESSION;
 
@@ -778,7 +787,7 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 
 	//	memcpy(&ilStates[ilCurrentPos], &ilStates[ilCurrentPos - 1], sizeof(IL_STATES));
 
-	ilDefaultStates();
+	iResetStates();
 
 	if (Bits & IL_ORIGIN_BIT) {
 		ilStates[ilCurrentPos].ilOriginMode = ilStates[ilCurrentPos-1].ilOriginMode;
-- 
2.43.0


From 7298a705e491ff40c28afb5aa6c19e897e95b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 012/161] fix: ilPushAttrib(IL_FORMAT_SPECIFIC_BIT) crashed on
 unset strings and leaked the set ones

---
 DevIL/src-IL/src/il_states.cpp | 136 +++++++++++++++------------------
 1 file changed, 61 insertions(+), 75 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index f75c413..a0e3291 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -40,6 +40,44 @@ char* _ilSaveExt		= (char*)"" IL_BMP_EXT IL_CHEAD_EXT IL_DDS_EXT IL_EXR_EXT
 									IL_WBMP_EXT;
 
 
+// Replaces one of the format-specific strings with a copy of String (which may be NULL).
+static void iReplaceString(char **Field, const char *String)
+{
+	char *Copy = NULL;
+
+	if (String != NULL) {
+		Copy = (char*)ialloc(ilCharStrLen(String) + 1);
+		if (Copy == NULL)
+			return;
+		strcpy(Copy, String);
+	}
+	if (*Field != NULL)
+		ifree(*Field);
+	*Field = Copy;
+
+	return;
+}
+
+
+// Frees the format-specific strings of the current position on the stack.
+static void iFreeStrings()
+{
+	iReplaceString(&ilStates[ilCurrentPos].ilTgaId, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthName, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthComment, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilPngAuthName, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilPngTitle, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilPngDescription, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTifDescription, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTifHostComputer, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTifDocumentName, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTifAuthName, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilCHeader, NULL);
+
+	return;
+}
+
+
 // Sets the states of the current position on the stack to their defaults.
 static void iResetStates()
 {
@@ -827,54 +865,23 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		ilStates[ilCurrentPos].ilPngAlphaIndex = ilStates[ilCurrentPos-1].ilPngAlphaIndex;
 
 		// Strings
-		if (ilStates[ilCurrentPos].ilTgaId)
-			ifree(ilStates[ilCurrentPos].ilTgaId);
-		if (ilStates[ilCurrentPos].ilTgaAuthName)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-		if (ilStates[ilCurrentPos].ilTgaAuthComment)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-		if (ilStates[ilCurrentPos].ilPngAuthName)
-			ifree(ilStates[ilCurrentPos].ilPngAuthName);
-		if (ilStates[ilCurrentPos].ilPngTitle)
-			ifree(ilStates[ilCurrentPos].ilPngTitle);
-		if (ilStates[ilCurrentPos].ilPngDescription)
-			ifree(ilStates[ilCurrentPos].ilPngDescription);
-
-		//2003-09-01: added tif strings
-		if (ilStates[ilCurrentPos].ilTifDescription)
-			ifree(ilStates[ilCurrentPos].ilTifDescription);
-		if (ilStates[ilCurrentPos].ilTifHostComputer)
-			ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-		if (ilStates[ilCurrentPos].ilTifDocumentName)
-			ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-		if (ilStates[ilCurrentPos].ilTifAuthName)
-			ifree(ilStates[ilCurrentPos].ilTifAuthName);
-
-		if (ilStates[ilCurrentPos].ilCHeader)
-			ifree(ilStates[ilCurrentPos].ilCHeader);
-
-		ilStates[ilCurrentPos].ilTgaId = strdup(ilStates[ilCurrentPos-1].ilTgaId);
-		ilStates[ilCurrentPos].ilTgaAuthName = strdup(ilStates[ilCurrentPos-1].ilTgaAuthName);
-		ilStates[ilCurrentPos].ilTgaAuthComment = strdup(ilStates[ilCurrentPos-1].ilTgaAuthComment);
-		ilStates[ilCurrentPos].ilPngAuthName = strdup(ilStates[ilCurrentPos-1].ilPngAuthName);
-		ilStates[ilCurrentPos].ilPngTitle = strdup(ilStates[ilCurrentPos-1].ilPngTitle);
-		ilStates[ilCurrentPos].ilPngDescription = strdup(ilStates[ilCurrentPos-1].ilPngDescription);
-
-		//2003-09-01: added tif strings
-		ilStates[ilCurrentPos].ilTifDescription = strdup(ilStates[ilCurrentPos-1].ilTifDescription);
-		ilStates[ilCurrentPos].ilTifHostComputer = strdup(ilStates[ilCurrentPos-1].ilTifHostComputer);
-		ilStates[ilCurrentPos].ilTifDocumentName = strdup(ilStates[ilCurrentPos-1].ilTifDocumentName);
-		ilStates[ilCurrentPos].ilTifAuthName = strdup(ilStates[ilCurrentPos-1].ilTifAuthName);
-
-		ilStates[ilCurrentPos].ilCHeader = strdup(ilStates[ilCurrentPos-1].ilCHeader);
+		iReplaceString(&ilStates[ilCurrentPos].ilTgaId, ilStates[ilCurrentPos-1].ilTgaId);
+		iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthName, ilStates[ilCurrentPos-1].ilTgaAuthName);
+		iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthComment, ilStates[ilCurrentPos-1].ilTgaAuthComment);
+		iReplaceString(&ilStates[ilCurrentPos].ilPngAuthName, ilStates[ilCurrentPos-1].ilPngAuthName);
+		iReplaceString(&ilStates[ilCurrentPos].ilPngTitle, ilStates[ilCurrentPos-1].ilPngTitle);
+		iReplaceString(&ilStates[ilCurrentPos].ilPngDescription, ilStates[ilCurrentPos-1].ilPngDescription);
+		iReplaceString(&ilStates[ilCurrentPos].ilTifDescription, ilStates[ilCurrentPos-1].ilTifDescription);
+		iReplaceString(&ilStates[ilCurrentPos].ilTifHostComputer, ilStates[ilCurrentPos-1].ilTifHostComputer);
+		iReplaceString(&ilStates[ilCurrentPos].ilTifDocumentName, ilStates[ilCurrentPos-1].ilTifDocumentName);
+		iReplaceString(&ilStates[ilCurrentPos].ilTifAuthName, ilStates[ilCurrentPos-1].ilTifAuthName);
+		iReplaceString(&ilStates[ilCurrentPos].ilCHeader, ilStates[ilCurrentPos-1].ilCHeader);
 	}
 
 	return;
 }
 
 
-// @TODO:  Find out how this affects strings!!!
-
 //! Pops the last entry off the state stack into the current states
 void ILAPIENTRY ilPopAttrib()
 {
@@ -885,6 +892,7 @@ void ILAPIENTRY ilPopAttrib()
 	}
 
 	// Should we check here to see if ilCurrentPos is too large?
+	iFreeStrings();
 	ilCurrentPos--;
 
 	return;
@@ -967,62 +975,40 @@ void ILAPIENTRY ilSetString(ILenum Mode, const char *String)
 	switch (Mode)
 	{
 		case IL_TGA_ID_STRING:
-			if (ilStates[ilCurrentPos].ilTgaId)
-				ifree(ilStates[ilCurrentPos].ilTgaId);
-			ilStates[ilCurrentPos].ilTgaId = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTgaId, String);
 			break;
 		case IL_TGA_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilTgaAuthName)
-				ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-			ilStates[ilCurrentPos].ilTgaAuthName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthName, String);
 			break;
 		case IL_TGA_AUTHCOMMENT_STRING:
-			if (ilStates[ilCurrentPos].ilTgaAuthComment)
-				ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-			ilStates[ilCurrentPos].ilTgaAuthComment = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthComment, String);
 			break;
 		case IL_PNG_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilPngAuthName)
-				ifree(ilStates[ilCurrentPos].ilPngAuthName);
-			ilStates[ilCurrentPos].ilPngAuthName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilPngAuthName, String);
 			break;
 		case IL_PNG_TITLE_STRING:
-			if (ilStates[ilCurrentPos].ilPngTitle)
-				ifree(ilStates[ilCurrentPos].ilPngTitle);
-			ilStates[ilCurrentPos].ilPngTitle = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilPngTitle, String);
 			break;
 		case IL_PNG_DESCRIPTION_STRING:
-			if (ilStates[ilCurrentPos].ilPngDescription)
-				ifree(ilStates[ilCurrentPos].ilPngDescription);
-			ilStates[ilCurrentPos].ilPngDescription = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilPngDescription, String);
 			break;
 
 		//2003-09-01: added tif strings
 		case IL_TIF_DESCRIPTION_STRING:
-			if (ilStates[ilCurrentPos].ilTifDescription)
-				ifree(ilStates[ilCurrentPos].ilTifDescription);
-			ilStates[ilCurrentPos].ilTifDescription = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifDescription, String);
 			break;
 		case IL_TIF_HOSTCOMPUTER_STRING:
-			if (ilStates[ilCurrentPos].ilTifHostComputer)
-				ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-			ilStates[ilCurrentPos].ilTifHostComputer = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifHostComputer, String);
 			break;
 		case IL_TIF_DOCUMENTNAME_STRING:
-						if (ilStates[ilCurrentPos].ilTifDocumentName)
-				ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-			ilStates[ilCurrentPos].ilTifDocumentName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifDocumentName, String);
 			break;
 		case IL_TIF_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilTifAuthName)
-				ifree(ilStates[ilCurrentPos].ilTifAuthName);
-			ilStates[ilCurrentPos].ilTifAuthName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifAuthName, String);
 			break;
 
 		case IL_CHEAD_HEADER_STRING:
-			if (ilStates[ilCurrentPos].ilCHeader)
-				ifree(ilStates[ilCurrentPos].ilCHeader);
-			ilStates[ilCurrentPos].ilCHeader = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilCHeader, String);
 			break;
 
 		default:
-- 
2.43.0


From 1166d79eed928614f6fa032a1d243e6509758fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 013/161] fix: clipping a format string read past its end or
 wrote past the copy

---
 DevIL/src-IL/src/il_states.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index a0e3291..d2418bd 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -211,7 +211,9 @@ char *iClipString(char *String, ILuint MaxLen)
 		return NULL;
 	}
 
-	memcpy(Clipped, String, MaxLen * sizeof(char) /*sizeof(ILchar)*/);
+	if (Length > MaxLen)
+		Length = MaxLen;
+	memcpy(Clipped, String, Length * sizeof(char) /*sizeof(ILchar)*/);
 	Clipped[Length] = 0;
 
 	return Clipped;
-- 
2.43.0


From 7f1ec631e763995b430c21a3717715a47132d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 014/161] fix: ilPushAttrib lost states that its mask asks to
 keep

---
 DevIL/src-IL/src/il_states.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index d2418bd..201f378 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -829,6 +829,18 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 
 	iResetStates();
 
+	if ((Bits & IL_ALL_ATTRIB_BITS) == IL_ALL_ATTRIB_BITS) {
+		// These do not belong to any of the groups below.
+		ilStates[ilCurrentPos].ilUseKeyColour = ilStates[ilCurrentPos-1].ilUseKeyColour;
+		ilStates[ilCurrentPos].ilBlitBlend = ilStates[ilCurrentPos-1].ilBlitBlend;
+		ilStates[ilCurrentPos].ilInterlace = ilStates[ilCurrentPos-1].ilInterlace;
+		ilStates[ilCurrentPos].ilQuantMode = ilStates[ilCurrentPos-1].ilQuantMode;
+		ilStates[ilCurrentPos].ilNeuSample = ilStates[ilCurrentPos-1].ilNeuSample;
+		ilStates[ilCurrentPos].ilQuantMaxIndexs = ilStates[ilCurrentPos-1].ilQuantMaxIndexs;
+		ilStates[ilCurrentPos].ilKeepDxtcData = ilStates[ilCurrentPos-1].ilKeepDxtcData;
+		ilStates[ilCurrentPos].ilUseNVidiaDXT = ilStates[ilCurrentPos-1].ilUseNVidiaDXT;
+		ilStates[ilCurrentPos].ilUseSquishDXT = ilStates[ilCurrentPos-1].ilUseSquishDXT;
+	}
 	if (Bits & IL_ORIGIN_BIT) {
 		ilStates[ilCurrentPos].ilOriginMode = ilStates[ilCurrentPos-1].ilOriginMode;
 		ilStates[ilCurrentPos].ilOriginSet  = ilStates[ilCurrentPos-1].ilOriginSet;
@@ -861,6 +873,8 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		ilStates[ilCurrentPos].ilBmpRle = ilStates[ilCurrentPos-1].ilBmpRle;
 		ilStates[ilCurrentPos].ilSgiRle = ilStates[ilCurrentPos-1].ilSgiRle;
 		ilStates[ilCurrentPos].ilJpgFormat = ilStates[ilCurrentPos-1].ilJpgFormat;
+		ilStates[ilCurrentPos].ilJpgProgressive = ilStates[ilCurrentPos-1].ilJpgProgressive;
+		ilStates[ilCurrentPos].ilVtfCompression = ilStates[ilCurrentPos-1].ilVtfCompression;
 		ilStates[ilCurrentPos].ilDxtcFormat = ilStates[ilCurrentPos-1].ilDxtcFormat;
 		ilStates[ilCurrentPos].ilPcdPicNum = ilStates[ilCurrentPos-1].ilPcdPicNum;
 
-- 
2.43.0


From 12e0f7e1bdd59846e6d7e6e5a02ba17234d9d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 015/161] fix: setting IL_IMAGE_CUBEFLAGS succeeded but
 reported an error

---
 DevIL/src-IL/src/il_states.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 201f378..7c65333 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1102,7 +1102,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 				break;
 			}
 			iCurImage->CubeFlags = Param;
-			break;
+			return;
  
 		// Format specific values
 		case IL_BMP_RLE:
-- 
2.43.0


From 9ab54a8b7d9c714300a586bc7d83cf1cd18876da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 016/161] fix: ilSetInteger accepted any value for the DXTC
 format, PCD picture and PNG alpha index

---
 DevIL/src-IL/src/il_states.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 7c65333..180c790 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1112,7 +1112,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_DXTC_FORMAT:
-			if (Param >= IL_DXT1 || Param <= IL_DXT5 || Param == IL_DXT1A) {
+			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || Param == IL_3DC || Param == IL_RXGB || Param == IL_ATI1N || Param == IL_DXT1A) {
 				ilStates[ilCurrentPos].ilDxtcFormat = Param;
 				return;
 			}
@@ -1136,13 +1136,13 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_PCD_PICNUM:
-			if (Param >= 0 || Param <= 2) {
+			if (Param >= 0 && Param <= 2) {
 				ilStates[ilCurrentPos].ilPcdPicNum = Param;
 				return;
 			}
 			break;
 		case IL_PNG_ALPHA_INDEX:
-			if (Param >= -1 || Param <= 255) {
+			if (Param >= -1 && Param <= 255) {
 				ilStates[ilCurrentPos].ilPngAlphaIndex=Param;
 				return;
 			}
-- 
2.43.0


From bc55f450afebe8bdce296b57674dd61e8b64bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 017/161] fix: IL_PALETTE_BASE_TYPE always reported IL_BGRA

---
 DevIL/src-IL/src/il_states.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 180c790..343c661 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -703,14 +703,19 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
              {
                   case IL_PAL_RGB24:
                       *Param = IL_RGB;
+                      break;
                   case IL_PAL_RGB32:
                       *Param = IL_RGBA; // Not sure
+                      break;
                   case IL_PAL_RGBA32:
                       *Param = IL_RGBA;
+                      break;
                   case IL_PAL_BGR24:
                       *Param = IL_BGR;
+                      break;
                   case IL_PAL_BGR32:
                       *Param = IL_BGRA; // Not sure
+                      break;
                   case IL_PAL_BGRA32:
                       *Param = IL_BGRA;
              }
-- 
2.43.0


From 07731318f4b37baedc4149b810a2d80c0f0944dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 018/161] fix: ilSetInteger reported two errors when no image
 is bound

---
 DevIL/src-IL/src/il_states.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 343c661..678d4ed 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1083,28 +1083,28 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 		case IL_IMAGE_DURATION:
 			if (iCurImage == NULL) {
 				ilSetError(IL_ILLEGAL_OPERATION);
-				break;
+				return;
 			}
 			iCurImage->Duration = Param;
 			return;
 		case IL_IMAGE_OFFX:
 			if (iCurImage == NULL) {
 				ilSetError(IL_ILLEGAL_OPERATION);
-				break;
+				return;
 			}
 			iCurImage->OffX = Param;
 			return;
 		case IL_IMAGE_OFFY:
 			if (iCurImage == NULL) {
 				ilSetError(IL_ILLEGAL_OPERATION);
-				break;
+				return;
 			}
 			iCurImage->OffY = Param;
 			return;
 		case IL_IMAGE_CUBEFLAGS:
 			if (iCurImage == NULL) {
 				ilSetError(IL_ILLEGAL_OPERATION);
-				break;
+				return;
 			}
 			iCurImage->CubeFlags = Param;
 			return;
-- 
2.43.0


From 712cbcedff61fd65ab3e6e2ec55e328fb3ad6ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 019/161] fix: IL_ACTIVE_FACE could not be queried

---
 DevIL/src-IL/src/il_states.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 678d4ed..4bda009 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -513,6 +513,7 @@ void ILAPIENTRY ilGetIntegerv(ILenum Mode, ILint *Param)
 		case IL_ACTIVE_IMAGE:
 		case IL_ACTIVE_MIPMAP:
 		case IL_ACTIVE_LAYER:
+		case IL_ACTIVE_FACE:
 			*Param = iGetActiveNum(Mode);
 			break;
 
-- 
2.43.0


From 9acb77db7f75043023276776926af3497c0d5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 020/161] fix: reading a state internally put IL_NO_ERROR on
 the error stack and hid older errors

---
 DevIL/src-IL/src/il_states.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 4bda009..565406c 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1203,7 +1203,7 @@ ILint iGetInt(ILenum Mode)
 	err = ilGetError();
 	if (r == -1 && err == IL_INVALID_ENUM)
 		ilSetError(IL_INTERNAL_ERROR);
-	else
+	else if (err != IL_NO_ERROR)
 		ilSetError(err); //restore error
 
 	return r;
-- 
2.43.0


From ca2ab695ef265d49372df2ce0999bc719c715167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 021/161] fix: ilEnable did not know IL_KEEP_DXTC_DATA

---
 DevIL/src-IL/src/il_states.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 565406c..b2b5c40 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -311,6 +311,9 @@ ILboolean ilAble(ILenum Mode, ILboolean Flag)
 		case IL_SQUISH_COMPRESS:
 			ilStates[ilCurrentPos].ilUseSquishDXT = Flag;
 			break;
+		case IL_KEEP_DXTC_DATA:
+			ilStates[ilCurrentPos].ilKeepDxtcData = Flag;
+			break;
 
 		default:
 			ilSetError(IL_INVALID_ENUM);
@@ -350,6 +353,8 @@ ILboolean ILAPIENTRY ilIsEnabled(ILenum Mode)
 			return ilStates[ilCurrentPos].ilUseNVidiaDXT;
 		case IL_SQUISH_COMPRESS:
 			return ilStates[ilCurrentPos].ilUseSquishDXT;
+		case IL_KEEP_DXTC_DATA:
+			return ilStates[ilCurrentPos].ilKeepDxtcData;
 
 		default:
 			ilSetError(IL_INVALID_ENUM);
-- 
2.43.0


From 3c9e4cfd6c3b280e6da3921fe313fd6d23a698aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 022/161] fix: ilShutDown leaked the strings of the state stack
 and kept its depth

---
 DevIL/src-IL/include/il_internal.h |  1 +
 DevIL/src-IL/src/il_stack.cpp      |  1 +
 DevIL/src-IL/src/il_states.cpp     | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 4ea71a4..e2c8560 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -179,6 +179,7 @@ ILuint		ilStrLen(ILconst_string Str);
 ILuint		ilCharStrLen(const char *Str);
 // Miscellaneous functions
 void					ilDefaultStates(void);
+void					iFreeStates(void);
 ILenum					iGetHint(ILenum Target);
 ILint					iGetInt(ILenum Mode);
 void					ilRemoveRegistered(void);
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 6824033..7a97542 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -690,6 +690,7 @@ void ILAPIENTRY ilShutDown()
 	CurName = 0;
 	LastUsed = 0;
 	StackSize = 0;
+	iFreeStates();
 	IsInit = IL_FALSE;
 	return;
 }
diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index b2b5c40..b4350f6 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -137,6 +137,18 @@ static void iResetStates()
 }
 
 
+// Empties the state stack.
+void iFreeStates()
+{
+	while (1) {
+		iFreeStrings();
+		if (ilCurrentPos == 0)
+			return;
+		ilCurrentPos--;
+	}
+}
+
+
 //! Set all states to their defaults.
 void ilDefaultStates()
 {
-- 
2.43.0


From 5e9b38d433c3ccdab998d007c0f1aa580e987a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 023/161] fix: ilSaveL of TGA and TIFF asked the previous
 output for its position (crash when there was none)

---
 DevIL/src-IL/src/il_exr.cpp   | 3 ++-
 DevIL/src-IL/src/il_targa.cpp | 3 ++-
 DevIL/src-IL/src/il_tiff.cpp  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_exr.cpp b/DevIL/src-IL/src/il_exr.cpp
index bbb3978..8cbb60f 100644
--- a/DevIL/src-IL/src/il_exr.cpp
+++ b/DevIL/src-IL/src/il_exr.cpp
@@ -372,8 +372,9 @@ ILuint ilSaveExrF(ILHANDLE File)
 //! Writes a Exr to a memory "lump"
 ILuint ilSaveExrL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveExrInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 8cb0e06..46202db 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -580,8 +580,9 @@ ILuint ilSaveTargaF(ILHANDLE File)
 //! Writes a Targa to a memory "lump"
 ILuint ilSaveTargaL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTargaInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 4d9d117..d4253ba 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -914,8 +914,9 @@ ILuint ilSaveTiffF(ILHANDLE File)
 //! Writes a Tiff to a memory "lump"
 ILuint ilSaveTiffL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTiffInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
-- 
2.43.0


From 38a2ccaa3b3fa640595964a8b43a5165a815ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 024/161] fix: reads and seeks in a memory lump could leave the
 lump

---
 DevIL/src-IL/src/il_files.cpp | 63 +++++++++++++++--------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 54726c3..35ef7f5 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -424,9 +424,7 @@ ILboolean ILAPIENTRY iEofFile(void)
 
 ILboolean ILAPIENTRY iEofLump(void)
 {
-	if (ReadLumpSize)
-		return (ReadLumpPos >= ReadLumpSize);
-	return IL_FALSE;
+	return (ReadLumpPos >= ReadLumpSize);
 }
 
 
@@ -446,13 +444,9 @@ ILint ILAPIENTRY iGetcFile(void)
 
 ILint ILAPIENTRY iGetcLump(void)
 {
-	// If ReadLumpSize is 0, don't even check to see if we've gone past the bounds.
-	if (ReadLumpSize > 0) {
-		if (ReadLumpPos + 1 > ReadLumpSize) {
-			ReadLumpPos--;
-			ilSetError(IL_FILE_READ_ERROR);
-			return IL_EOF;
-		}
+	if (ReadLumpPos >= ReadLumpSize) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_EOF;
 	}
 
 	return *((ILubyte*)ReadLump + ReadLumpPos++);
@@ -515,23 +509,21 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 
 ILuint ILAPIENTRY iReadLump(void *Buffer, const ILuint Size, const ILuint Number)
 {
-	ILuint i, ByteSize = IL_MIN( Size*Number, ReadLumpSize-ReadLumpPos);
+	ILuint Left = ReadLumpSize - ReadLumpPos, ByteSize, i;
 
-	for (i = 0; i < ByteSize; i++) {
-		*((ILubyte*)Buffer + i) = *((ILubyte*)ReadLump + ReadLumpPos + i);
-		if (ReadLumpSize > 0) {  // ReadLumpSize is too large to care about apparently
-			if (ReadLumpPos + i > ReadLumpSize) {
-				ReadLumpPos += i;
-				if (i != Number)
-					ilSetError(IL_FILE_READ_ERROR);
-				return i;
-			}
-		}
-	}
+	if (Size == 0 || Number == 0)
+		return 0;
 
-	ReadLumpPos += i;
-	if (Size != 0)
-		i /= Size;
+	// Size * Number may not fit into an ILuint.
+	if (Number > Left / Size)
+		ByteSize = Left;
+	else
+		ByteSize = Size * Number;
+
+	memcpy(Buffer, (const ILubyte*)ReadLump + ReadLumpPos, ByteSize);
+	ReadLumpPos += ByteSize;
+
+	i = ByteSize / Size;
 	if (i != Number)
 		ilSetError(IL_FILE_READ_ERROR);
 	return i;
@@ -612,33 +604,30 @@ ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 // Returns 1 on error, 0 on success
 ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 {
+	ILint64 NewPos = Offset;
+
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)ReadLumpSize)
-				return 1;
-			ReadLumpPos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (ReadLumpPos + Offset > ReadLumpSize)
-				return 1;
-			ReadLumpPos += Offset;
+			NewPos += ReadLumpPos;
 			break;
 
 		case IL_SEEK_END:
-			if (Offset > 0)
-				return 1;
-			// Should we use >= instead?
-			if (abs(Offset) > (ILint)ReadLumpSize)  // If ReadLumpSize == 0, too bad
-				return 1;
-			ReadLumpPos = ReadLumpSize + Offset;
+			NewPos += ReadLumpSize;
 			break;
 
 		default:
 			return 1;
 	}
 
+	// Only positions inside the lump are reachable.
+	if (NewPos < 0 || NewPos > (ILint64)ReadLumpSize)
+		return 1;
+	ReadLumpPos = (ILuint)NewPos;
+
 	return 0;
 }
 
-- 
2.43.0


From fcee7a0b8890d85e6494194efa66a821b1355b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 025/161] fix: loading from and saving to a handle that is not
 at its start seeked to wrong positions

---
 DevIL/src-IL/src/il_files.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 35ef7f5..bbcae85 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -310,7 +310,7 @@ void iSetInputFile(ILHANDLE File)
 	iseek = iSeekRFile;
 	itell = iTellRFile;
 	FileRead = File;
-	ReadFileStart = itell();
+	ReadFileStart = TellRProc(FileRead);
 }
 
 
@@ -341,6 +341,7 @@ void iSetOutputFile(ILHANDLE File)
 	itellw = iTellWFile;
 	iwrite = iWriteFile;
 	FileWrite = File;
+	WriteFileStart = TellWProc(FileWrite);
 }
 
 
@@ -632,9 +633,10 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 }
 
 
+// Relative to where we started, because iSeekRFile() with IL_SEEK_SET is, too.
 ILuint ILAPIENTRY iTellRFile(void)
 {
-	return TellRProc(FileRead);
+	return TellRProc(FileRead) - ReadFileStart;
 }
 
 
@@ -750,9 +752,10 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 }
 
 
+// Relative to where we started, because iSeekWFile() with IL_SEEK_SET is, too.
 ILuint ILAPIENTRY iTellWFile(void)
 {
-	return TellWProc(FileWrite);
+	return TellWProc(FileWrite) - WriteFileStart;
 }
 
 
-- 
2.43.0


From b01272d03e22300348510dfbe6d60f0d2c6e6399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 026/161] fix: cached file reads ran past the end of the file
 and a failed load left its cache to the next one

---
 DevIL/src-IL/include/il_files.h |  1 +
 DevIL/src-IL/src/il_files.cpp   | 89 +++++++++++++++------------------
 DevIL/src-IL/src/il_stack.cpp   |  2 +
 3 files changed, 42 insertions(+), 50 deletions(-)

diff --git a/DevIL/src-IL/include/il_files.h b/DevIL/src-IL/include/il_files.h
index 20701f9..34ed770 100644
--- a/DevIL/src-IL/include/il_files.h
+++ b/DevIL/src-IL/include/il_files.h
@@ -75,5 +75,6 @@ __FILES_EXTERN void				ipad(ILuint NumZeros);
 
 __FILES_EXTERN ILboolean		iPreCache(ILuint Size);
 __FILES_EXTERN void				iUnCache(void);
+__FILES_EXTERN void				iDropCache(void);
 
 #endif//FILES_H
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index bbcae85..3b00cd1 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -57,7 +57,8 @@ void		(ILAPIENTRY *iclosewCopy)(ILHANDLE);
 
 ILboolean	UseCache = IL_FALSE;
 ILubyte		*Cache = NULL;
-ILuint		CacheSize, CachePos, CacheStartPos, CacheBytesRead;
+ILuint		CacheSize, CachePos, CacheStartPos;
+ILuint		CacheValid;  // How much of the cache was filled from the file
 
 // "Fake" size functions
 //  Definitions are in il_size.c.
@@ -309,6 +310,7 @@ void iSetInputFile(ILHANDLE File)
 	iread = iReadFile;
 	iseek = iSeekRFile;
 	itell = iTellRFile;
+	iDropCache();  // A load that failed may have left one.
 	FileRead = File;
 	ReadFileStart = TellRProc(FileRead);
 }
@@ -322,6 +324,7 @@ void iSetInputLump(const void *Lump, ILuint Size)
 	iread = iReadLump;
 	iseek = iSeekRLump;
 	itell = iTellRLump;
+	iDropCache();  // A load that failed may have left one.
 	ReadLump = Lump;
 	ReadLumpPos = 0;
 	ReadLumpSize = Size;
@@ -434,11 +437,15 @@ ILint ILAPIENTRY iGetcFile(void)
 	if (!UseCache) {
 		return GetcProc(FileRead);
 	}
-	if (CachePos >= CacheSize) {
-		iPreCache(CacheSize);
+	if (CachePos >= CacheValid) {
+		if (!iPreCache(CacheSize))
+			return IL_EOF;
+		if (CacheValid == 0) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_EOF;
+		}
 	}
 
-	CacheBytesRead++;
 	return Cache[CachePos++];
 }
 
@@ -467,39 +474,18 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 		return NumRead;
 	}
 
-	/*if (Cache == NULL || CacheSize == 0) {  // Shouldn't happen, but we check anyway.
-		return ReadProc(Buffer, Size, Number, FileRead);
-	}*/
-
-	if (BuffSize < CacheSize - CachePos) {
-		memcpy(Buffer, Cache + CachePos, BuffSize);
-		CachePos += BuffSize;
-		CacheBytesRead += BuffSize;
-		if (Size != 0)
-			BuffSize /= Size;
-		return BuffSize;
-	}
-	else {
-		while (TotalBytes < BuffSize) {
-			// If loop through more than once, after first, CachePos is 0.
-			if (TotalBytes + CacheSize - CachePos > BuffSize)
-				BytesCopied = BuffSize - TotalBytes;
-			else
-				BytesCopied = CacheSize - CachePos;
-
-			memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
-			TotalBytes += BytesCopied;
-			CachePos += BytesCopied;
-			if (TotalBytes < BuffSize) {
-				iPreCache(CacheSize);
-			}
+	while (TotalBytes < BuffSize) {
+		if (CachePos >= CacheValid) {
+			if (!iPreCache(CacheSize) || CacheValid == 0)
+				break;  // End of the file
 		}
+
+		BytesCopied = IL_MIN(BuffSize - TotalBytes, CacheValid - CachePos);
+		memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
+		TotalBytes += BytesCopied;
+		CachePos += BytesCopied;
 	}
 
-	// DW: Changed on 12-27-2008.  Was causing the position to go too far if the
-	//     cache was smaller than the buffer.
-	//CacheBytesRead += TotalBytes;
-	CacheBytesRead = CachePos;
 	if (Size != 0)
 		TotalBytes /= Size;
 	if (TotalBytes != Number)
@@ -539,9 +525,8 @@ ILboolean iPreCache(ILuint Size)
 		return IL_TRUE;
 	}
 
-	if (Cache) {
-		ifree(Cache);
-	}
+	// Continue where the reader is, not where the previous cache ended.
+	iUnCache();
 
 	if (Size == 0) {
 		Size = 1;
@@ -552,18 +537,14 @@ ILboolean iPreCache(ILuint Size)
 		return IL_FALSE;
 	}
 
-	UseCache = IL_FALSE;
 	CacheStartPos = itell();
-	CacheSize = iread(Cache, 1, Size);
-	if (CacheSize != Size)
-		ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
-
-	//2003-09-09: uncommented the following line to prevent
-	//an infinite loop in ilPreCache()
+	// The file may well be shorter than Size.
+	CacheValid = ReadProc(Cache, 1, Size, FileRead);
+	if (CacheValid > Size)
+		CacheValid = 0;
 	CacheSize = Size;
 	CachePos = 0;
 	UseCache = IL_TRUE;
-	CacheBytesRead = 0;
 
 	return IL_TRUE;
 }
@@ -580,22 +561,28 @@ void iUnCache()
 	if (iread == iReadLump)
 		return;
 
-	CacheSize = 0;
-	CachePos = 0;
+	iDropCache();
+	iseek(CacheStartPos + CachePos, IL_SEEK_SET);
+
+	return;
+}
+
+
+// Forgets the cache without moving the file position
+void iDropCache()
+{
 	if (Cache) {
 		ifree(Cache);
 		Cache = NULL;
 	}
 	UseCache = IL_FALSE;
-
-	iseek(CacheStartPos + CacheBytesRead, IL_SEEK_SET);
-
 	return;
 }
 
 
 ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 {
+	iUnCache();
 	if (Mode == IL_SEEK_SET)
 		Offset += ReadFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
 	return SeekRProc(FileRead, Offset, Mode);
@@ -636,6 +623,8 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 // Relative to where we started, because iSeekRFile() with IL_SEEK_SET is, too.
 ILuint ILAPIENTRY iTellRFile(void)
 {
+	if (UseCache)
+		return CacheStartPos + CachePos;
 	return TellRProc(FileRead) - ReadFileStart;
 }
 
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 7a97542..9f2c8c8 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -671,6 +671,8 @@ void ILAPIENTRY ilShutDown()
 		return;
 	}
 
+	iDropCache();
+
 	while (TempFree != NULL) {
 		FreeNames = (iFree*)TempFree->Next;
 		ifree(TempFree);
-- 
2.43.0


From ac25ee8c14035f3b77cd1db3b1aab4c6b2c78c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 027/161] fix: saves into a lump that is too small or to a full
 device reported success

---
 DevIL/src-IL/include/il_files.h |  3 ++
 DevIL/src-IL/src/il_files.cpp   | 91 +++++++++++++++++++++++----------
 DevIL/src-IL/src/il_io.cpp      | 38 ++++++++++++++
 3 files changed, 104 insertions(+), 28 deletions(-)

diff --git a/DevIL/src-IL/include/il_files.h b/DevIL/src-IL/include/il_files.h
index 34ed770..772d7e7 100644
--- a/DevIL/src-IL/include/il_files.h
+++ b/DevIL/src-IL/include/il_files.h
@@ -73,6 +73,9 @@ __FILES_EXTERN const ILubyte*	ILAPIENTRY iGetLump(void);
 __FILES_EXTERN ILuint			ILAPIENTRY ilprintf(const char *, ...);
 __FILES_EXTERN void				ipad(ILuint NumZeros);
 
+__FILES_EXTERN void				iResetWriteFailed(void);
+__FILES_EXTERN ILboolean		iHasWriteFailed(void);
+
 __FILES_EXTERN ILboolean		iPreCache(ILuint Size);
 __FILES_EXTERN void				iUnCache(void);
 __FILES_EXTERN void				iDropCache(void);
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 3b00cd1..080d3f6 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -40,6 +40,8 @@ const void *ReadLump = NULL;
 void 		*WriteLump = NULL;
 ILuint		ReadLumpPos = 0, ReadLumpSize = 0, ReadFileStart = 0, WriteFileStart = 0;
 ILuint		WriteLumpPos = 0, WriteLumpSize = 0;
+ILuint		WriteLumpEnd = 0;  // End of the data written to the lump so far
+ILboolean	WriteFailed = IL_FALSE;  // Set when anything of the current save could not be written
 
 fGetcProc	GetcProcCopy;
 fReadProc	ReadProcCopy;
@@ -374,6 +376,7 @@ void iSetOutputLump(void *Lump, ILuint Size)
 	iwrite = iWriteLump;
 	WriteLump = Lump;
 	WriteLumpPos = 0;
+	WriteLumpEnd = 0;
 	WriteLumpSize = Size;
 }
 
@@ -649,17 +652,49 @@ const ILubyte* ILAPIENTRY iGetLump(void) {
 
 // Next 4 functions are the default write functions
 
+// Notes that a save is incomplete.  One error is enough for this, no matter how much was lost.
+static void iNoteWriteError(void)
+{
+	if (!WriteFailed)
+		ilSetError(IL_FILE_WRITE_ERROR);
+	WriteFailed = IL_TRUE;
+	return;
+}
+
+
+// To be called before a save
+void iResetWriteFailed(void)
+{
+	WriteFailed = IL_FALSE;
+	return;
+}
+
+
+// Did everything that was written since iResetWriteFailed() arrive?
+ILboolean iHasWriteFailed(void)
+{
+	return WriteFailed;
+}
+
+
 ILint ILAPIENTRY iPutcFile(ILubyte Char)
 {
-	return PutcProc(Char, FileWrite);
+	ILint Ret = PutcProc(Char, FileWrite);
+	if (Ret == IL_EOF)
+		iNoteWriteError();
+	return Ret;
 }
 
 
 ILint ILAPIENTRY iPutcLump(ILubyte Char)
 {
-	if (WriteLumpPos >= WriteLumpSize)
+	if (WriteLumpPos >= WriteLumpSize) {
+		iNoteWriteError();
 		return IL_EOF;  // IL_EOF
+	}
 	*((ILubyte*)(WriteLump) + WriteLumpPos++) = Char;
+	if (WriteLumpPos > WriteLumpEnd)
+		WriteLumpEnd = WriteLumpPos;
 	return Char;
 }
 
@@ -669,7 +704,7 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 	ILuint NumWritten;
 	NumWritten = WriteProc(Buffer, Size, Number, FileWrite);
 	if (NumWritten != Number) {
-		ilSetError(IL_FILE_WRITE_ERROR);
+		iNoteWriteError();
 		return 0;
 	}
 	return NumWritten;
@@ -678,24 +713,25 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 
 ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 {
-	ILuint SizeBytes = Size * Number;
-	ILuint i = 0;
+	ILuint Left = WriteLumpSize - WriteLumpPos, SizeBytes = Size * Number;
 
-	for (; i < SizeBytes; i++) {
-		if (WriteLumpSize > 0) {
-			if (WriteLumpPos + i >= WriteLumpSize) {  // Should we use > instead?
-				ilSetError(IL_FILE_WRITE_ERROR);
-				WriteLumpPos += i;
-				return i;
-			}
-		}
+	if (Size == 0 || Number == 0)
+		return Number;
 
-		*((ILubyte*)WriteLump + WriteLumpPos + i) = *((ILubyte*)Buffer + i);
+	if (Number > Left / Size) {
+		memcpy((ILubyte*)WriteLump + WriteLumpPos, Buffer, Left);
+		WriteLumpPos = WriteLumpSize;
+		iNoteWriteError();
+		return 0;
 	}
 
+	memcpy((ILubyte*)WriteLump + WriteLumpPos, Buffer, SizeBytes);
 	WriteLumpPos += SizeBytes;
-	
-	return SizeBytes;
+	if (WriteLumpPos > WriteLumpEnd)
+		WriteLumpEnd = WriteLumpPos;
+
+	// The number of items, like the other write functions.
+	return Number;
 }
 
 
@@ -710,33 +746,32 @@ ILint ILAPIENTRY iSeekWFile(ILint Offset, ILuint Mode)
 // Returns 1 on error, 0 on success
 ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 {
+	ILint64 NewPos = Offset;
+
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)WriteLumpSize)
-				return 1;
-			WriteLumpPos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (WriteLumpPos + Offset > WriteLumpSize)
-				return 1;
-			WriteLumpPos += Offset;
+			NewPos += WriteLumpPos;
 			break;
 
 		case IL_SEEK_END:
-			if (Offset > 0)
-				return 1;
-			// Should we use >= instead?
-			if (abs(Offset) > (ILint)WriteLumpSize)  // If WriteLumpSize == 0, too bad
-				return 1;
-			WriteLumpPos = WriteLumpSize + Offset;
+			NewPos += WriteLumpEnd;
 			break;
 
 		default:
 			return 1;
 	}
 
+	// Only positions inside the lump are reachable.
+	if (NewPos < 0 || NewPos > (ILint64)WriteLumpSize) {
+		iNoteWriteError();
+		return 1;
+	}
+	WriteLumpPos = (ILuint)NewPos;
+
 	return 0;
 }
 
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 01f324d..7898a5e 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2246,6 +2246,12 @@ finish:
 }
 
 
+static ILboolean iSaveType(ILenum Type, ILconst_string FileName);
+static ILuint iSaveTypeF(ILenum Type, ILHANDLE File);
+static ILuint iSaveTypeL(ILenum Type, void *Lump, ILuint Size);
+static ILboolean iSaveExtension(ILconst_string FileName);
+
+
 //! Attempts to save an image to a file.  The file format is specified by the user.
 /*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
 	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
@@ -2254,6 +2260,13 @@ finish:
 	       the filename to save to.
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
+{
+	iResetWriteFailed();
+	return iSaveType(Type, FileName) && !iHasWriteFailed();
+}
+
+
+static ILboolean iSaveType(ILenum Type, ILconst_string FileName)
 {
 	switch (Type)
 	{
@@ -2366,6 +2379,16 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 	\param File File stream to save to.
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
+{
+	ILuint Size;
+
+	iResetWriteFailed();
+	Size = iSaveTypeF(Type, File);
+	return iHasWriteFailed() ? 0 : Size;
+}
+
+
+static ILuint iSaveTypeF(ILenum Type, ILHANDLE File)
 {
 	ILboolean Ret;
 
@@ -2488,6 +2511,14 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 	\param Size Size of the memory buffer
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
+{
+	iResetWriteFailed();
+	Size = iSaveTypeL(Type, Lump, Size);
+	return iHasWriteFailed() ? 0 : Size;
+}
+
+
+static ILuint iSaveTypeL(ILenum Type, void *Lump, ILuint Size)
 {
 	if (Lump == NULL) {
 		if (Size != 0) {
@@ -2588,6 +2619,13 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 	       the filename to save to.
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
+{
+	iResetWriteFailed();
+	return iSaveExtension(FileName) && !iHasWriteFailed();
+}
+
+
+static ILboolean iSaveExtension(ILconst_string FileName)
 {
 	ILstring Ext;
 	ILboolean	bRet = IL_FALSE;
-- 
2.43.0


From 57e8343f492aea7399ae82a3a18a43c7ac38a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 028/161] fix: PCX could not be saved to a handle or a lump,
 although its lump size could be asked for

---
 DevIL/src-IL/src/il_io.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 7898a5e..8b69453 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2437,6 +2437,12 @@ static ILuint iSaveTypeF(ILenum Type, ILHANDLE File)
 			#endif
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			Ret = ilSavePcxF(File);
+			break;
+		#endif
+
 		#ifndef IL_NO_PNM
 		case IL_PNM:
 			Ret = ilSavePnmF(File);
@@ -2558,6 +2564,11 @@ static ILuint iSaveTypeL(ILenum Type, void *Lump, ILuint Size)
 			return ilSaveJpegL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			return ilSavePcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_PNG
 		case IL_PNG:
 			return ilSavePngL(Lump, Size);
-- 
2.43.0


From 1c048970de1a494085aeab7f3a6ba13eb5d94157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 029/161] fix: buffer conversion lost or invented samples
 (signed types, halfs, 32-bit luminance, alpha, palettes)

---
 DevIL/src-IL/src/il_convbuff.cpp | 225 +++++++++++++++++++++----------
 1 file changed, 152 insertions(+), 73 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 3ed07a2..5220aed 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -32,6 +32,61 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat);
 							return IL_FALSE; \
 						}
 
+#define HALF_ONE 0x3C00  // 1.0 as a half
+
+// Reads a sample of a 16-bit type, the halves as the floats they stand for.
+static ILfloat iGet16(ILenum Type, ILushort Value)
+{
+	ILfloat	Float;
+
+	if (Type != IL_HALF)
+		return Value;
+	*(ILuint*)&Float = ilHalfToFloat(Value);
+	return Float;
+}
+
+
+// The opposite of iGet16.
+static ILushort iPut16(ILenum Type, ILfloat Value)
+{
+	if (Type != IL_HALF)
+		return (ILushort)Value;
+	return ilFloatToHalf(*(ILuint*)&Value);
+}
+
+
+// The weights may add up to slightly more than 1.
+static ILuint iPut32(ILdouble Value)
+{
+	return Value >= UINT_MAX ? UINT_MAX : (ILuint)Value;
+}
+
+
+// Fills a buffer with Num opaque alpha samples.
+static void iFillOpaque(void *Buffer, ILuint Num, ILenum Type)
+{
+	ILuint i;
+
+	for (i = 0; i < Num; i++) {
+		switch (Type)
+		{
+			case IL_HALF:
+				((ILushort*)Buffer)[i] = HALF_ONE;
+				break;
+			case IL_FLOAT:
+				((ILfloat*)Buffer)[i] = 1.0f;
+				break;
+			case IL_DOUBLE:
+				((ILdouble*)Buffer)[i] = 1.0;
+				break;
+			default:
+				memset((ILubyte*)Buffer + i * ilGetBpcType(Type), 0xFF, ilGetBpcType(Type));
+				break;
+		}
+	}
+}
+
+
 ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILenum DestFormat, ILenum SrcType, ILenum DestType, ILpal *SrcPal, void *Buffer)
 {
 	//static const	ILfloat LumFactor[3] = { 0.299f, 0.587f, 0.114f };  // Used for conversion to luminance
@@ -44,6 +99,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 	ILdouble	Resultd;
 	ILuint		NumPix;  // Really number of pixels * bpp.
 	ILuint		BpcDest;
+	ILushort	Opaque16;
 	void		*Data = NULL;
 	ILimage		*PalImage = NULL, *TempImage = NULL;
 
@@ -52,18 +108,26 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		return NULL;
 	}
 
-	Data = iSwitchTypes(SizeOfData, SrcType, DestType, Buffer);
+	if (SrcFormat == IL_COLOUR_INDEX && SrcFormat != DestFormat) {
+		// The palette entries are bytes, so switch types only after looking them up.
+		if (SrcPal == NULL) {
+			ilSetError(IL_INVALID_PARAM);
+			return NULL;
+		}
+		Data = Buffer;
+	}
+	else
+		Data = iSwitchTypes(SizeOfData, SrcType, DestType, Buffer);
 	if (Data == NULL)
 		return NULL;
 
 	BpcDest = ilGetBpcType(DestType);
 	NumPix = SizeOfData / ilGetBpcType(SrcType);
+	Opaque16 = (DestType == IL_HALF) ? HALF_ONE : USHRT_MAX;
 
 	if (DestFormat == SrcFormat) {
 		NewData = (ILubyte*)ialloc(NumPix * BpcDest);
-		if (NewData == NULL) {
-			return IL_FALSE;
-		}
+		CHECK_ALLOC();
 		memcpy(NewData, Data, NumPix * BpcDest);
 		if (Data != Buffer)
 			ifree(Data);
@@ -84,6 +148,8 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		PalImage->Width = NumPix;
 		PalImage->Height = 1;
 		PalImage->Depth = 1;
+		PalImage->Bpc = 1;
+		PalImage->Bps = PalImage->SizeOfPlane = NumPix;
 		PalImage->Format = IL_COLOUR_INDEX;
 		PalImage->Type = IL_UNSIGNED_BYTE;
 		PalImage->Data = (ILubyte*)Buffer;
@@ -100,10 +166,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 			return NULL;
 		}
 
-		// Set TempImage->Data to NULL so that we can preserve it via NewData, or
-		//  else it would get wiped out by ilCloseImage.
-		NewData = TempImage->Data;
-		TempImage->Data = NULL;
+		// The palette lookup gives unsigned bytes. Set TempImage->Data to NULL if we
+		//  keep it via NewData, or else it would get wiped out by ilCloseImage.
+		NewData = (ILubyte*)iSwitchTypes(TempImage->SizeOfData, TempImage->Type, DestType, TempImage->Data);
+		if (NewData == TempImage->Data)
+			TempImage->Data = NULL;
 		// So that we do not delete the original palette or data.
 		PalImage->Pal.Palette = NULL;
 		PalImage->Data = NULL;
@@ -207,7 +274,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								((ILushort*)(NewData))[j] = ((ILushort*)(Data))[i];
 								((ILushort*)(NewData))[j+1] = ((ILushort*)(Data))[i+1];
 								((ILushort*)(NewData))[j+2] = ((ILushort*)(Data))[i+2];
-								((ILushort*)(NewData))[j+3] = USHRT_MAX;
+								((ILushort*)(NewData))[j+3] = Opaque16;
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -259,7 +326,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								((ILushort*)(NewData))[j] = ((ILushort*)(Data))[i+2];
 								((ILushort*)(NewData))[j+1] = ((ILushort*)(Data))[i+1];
 								((ILushort*)(NewData))[j+2] = ((ILushort*)(Data))[i];
-								((ILushort*)(NewData))[j+3] = USHRT_MAX;
+								((ILushort*)(NewData))[j+3] = Opaque16;
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -312,19 +379,19 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += iGet16(DestType, ((ILushort*)(Data))[i * 3 + c]) * LumFactor[c];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = iPut16(DestType, Resultf);
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i] = iPut32(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -371,20 +438,20 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += iGet16(DestType, ((ILushort*)(Data))[i * 3 + c]) * LumFactor[c];
 								}
-								((ILushort*)(NewData))[i*2] = (ILushort)Resultf;
-								((ILushort*)(NewData))[i*2+1] = USHRT_MAX;
+								((ILushort*)(NewData))[i*2] = iPut16(DestType, Resultf);
+								((ILushort*)(NewData))[i*2+1] = Opaque16;
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = iPut32(Resultd);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -414,7 +481,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest);
+					iFillOpaque(NewData, NumPix / 3, DestType);
 					break;
 
 				default:
@@ -616,9 +683,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 4 + c] * LumFactor[c];
+									Resultf += iGet16(DestType, ((ILushort*)(Data))[i * 4 + c]) * LumFactor[c];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = iPut16(DestType, Resultf);
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -628,7 +695,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iPut32(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -675,9 +742,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += iGet16(DestType, ((ILushort*)(Data))[i * 2 + c]) * LumFactor[c];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = iPut16(DestType, Resultf);
 								((ILushort*)(NewData))[i+1] = ((ILushort*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -688,7 +755,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iPut32(Resultd);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -852,7 +919,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								((ILushort*)(NewData))[j] = ((ILushort*)(Data))[i];
 								((ILushort*)(NewData))[j+1] = ((ILushort*)(Data))[i+1];
 								((ILushort*)(NewData))[j+2] = ((ILushort*)(Data))[i+2];
-								((ILushort*)(NewData))[j+3] = USHRT_MAX;
+								((ILushort*)(NewData))[j+3] = Opaque16;
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -904,7 +971,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								((ILushort*)(NewData))[j] = ((ILushort*)(Data))[i+2];
 								((ILushort*)(NewData))[j+1] = ((ILushort*)(Data))[i+1];
 								((ILushort*)(NewData))[j+2] = ((ILushort*)(Data))[i];
-								((ILushort*)(NewData))[j+3] = USHRT_MAX;
+								((ILushort*)(NewData))[j+3] = Opaque16;
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -957,9 +1024,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0.0f;  j = 2;
 								for (c = 0; c < 3; c++, j--) {
-									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[j];
+									Resultf += iGet16(DestType, ((ILushort*)(Data))[i * 3 + c]) * LumFactor[j];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = iPut16(DestType, Resultf);
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -969,7 +1036,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iPut32(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -1004,7 +1071,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								NewData[i*2] = (ILubyte)Resultf;
 								NewData[i*2+1] = UCHAR_MAX;
@@ -1016,20 +1083,20 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += iGet16(DestType, ((ILushort*)(Data))[i * 3 + c]) * LumFactor[2 - c];
 								}
-								((ILushort*)(NewData))[i*2] = (ILushort)Resultf;
-								((ILushort*)(NewData))[i*2+1] = USHRT_MAX;
+								((ILushort*)(NewData))[i*2] = iPut16(DestType, Resultf);
+								((ILushort*)(NewData))[i*2+1] = Opaque16;
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = iPut32(Resultd);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -1037,7 +1104,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILfloat*)(NewData))[i*2] = Resultf;
 								((ILfloat*)(NewData))[i*2+1] = 1.0f;
@@ -1047,7 +1114,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILdouble*)(NewData))[i*2] = Resultd;
 								((ILdouble*)(NewData))[i*2+1] = 1.0;
@@ -1059,7 +1126,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest / 3);
+					iFillOpaque(NewData, NumPix / 3, DestType);
 					break;
 
 				default:
@@ -1261,9 +1328,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0.0f;  j = 2;
 								for (c = 0; c < 3; c++, j--) {
-									Resultf += ((ILushort*)(Data))[i * 4 + c] * LumFactor[j];
+									Resultf += iGet16(DestType, ((ILushort*)(Data))[i * 4 + c]) * LumFactor[j];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = iPut16(DestType, Resultf);
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -1273,7 +1340,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iPut32(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -1308,7 +1375,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								NewData[i] = (ILubyte)Resultf;
 								NewData[i+1] = ((ILubyte*)(Data))[i * 2 + 3];
@@ -1320,9 +1387,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += iGet16(DestType, ((ILushort*)(Data))[i * 2 + c]) * LumFactor[2 - c];
 								}
-								((ILushort*)(NewData))[i] = (ILushort)Resultf;
+								((ILushort*)(NewData))[i] = iPut16(DestType, Resultf);
 								((ILushort*)(NewData))[i+1] = ((ILushort*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -1331,9 +1398,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iPut32(Resultd);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -1341,7 +1408,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILfloat*)(NewData))[i] = (ILfloat)Resultd;
 								((ILfloat*)(NewData))[i+1] = ((ILfloat*)(Data))[i * 2 + 3];
@@ -1351,7 +1418,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILdouble*)(NewData))[i] = Resultd;
 								((ILdouble*)(NewData))[i+1] = ((ILdouble*)(Data))[i * 2 + 3];
@@ -1482,7 +1549,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									((ILushort*)(NewData))[j + c] = ((ILushort*)(Data))[i];
 								}
-								((ILushort*)(NewData))[j + 3] = USHRT_MAX;  // Full opacity
+								((ILushort*)(NewData))[j + 3] = Opaque16;  // Full opacity
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -1531,7 +1598,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_HALF:
 							for (i = 0; i < NumPix; i++) {
 								((ILushort*)(NewData))[i * 2] = ((ILushort*)(Data))[i];
-								((ILushort*)(NewData))[i * 2 + 1] = USHRT_MAX;  // Full opacity
+								((ILushort*)(NewData))[i * 2 + 1] = Opaque16;  // Full opacity
 							}
 							break;
 						case IL_UNSIGNED_INT:
@@ -1559,7 +1626,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest);
+					iFillOpaque(NewData, NumPix, DestType);
 					break;
 
 				/*case IL_COLOUR_INDEX:
@@ -1744,30 +1811,30 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_BYTE:
 						case IL_BYTE:
 							for (i = 0; i < Size; i++) {
-								NewData[i] = ((ILubyte*)(Data))[i * 2 + 3];
+								NewData[i] = ((ILubyte*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
 						case IL_SHORT:
 						case IL_HALF:
 							for (i = 0; i < Size; i++) {
-								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 3];
+								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 3];
+								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_FLOAT:
 							for (i = 0; i < Size; i++) {
-								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 3];
+								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_DOUBLE:
 							for (i = 0; i < Size; i++) {
-								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 3];
+								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 1];
 							}
 							break;
 					}
@@ -1881,6 +1948,12 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					}
 					break;
 
+				case IL_LUMINANCE:
+					NewData = (ILubyte*)ialloc(NumPix * BpcDest);
+					CHECK_ALLOC();
+					memset(NewData, 0, NumPix * BpcDest);
+					break;
+
 				case IL_LUMINANCE_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 2);
 					CHECK_ALLOC();
@@ -1995,6 +2068,12 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 		return IL_FALSE;
 	}
 
+	// Signed and unsigned integers of the same size share their bits.
+	if (BpcSrc == BpcDest && SrcType != IL_FLOAT && DestType != IL_FLOAT && SrcType != IL_HALF && DestType != IL_HALF) {
+		memcpy(NewData, Buffer, Size * BpcDest);
+		return NewData;
+	}
+
 	switch (DestType)
 	{
 		case IL_UNSIGNED_BYTE:
@@ -2018,7 +2097,7 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					for (i = 0; i < Size; i++) {
 						#if CLAMP_FLOATS
 							tempFloat = IL_CLAMP(((ILfloat*)Buffer)[i]);
-							BytePtr[i] = (ILubyte)(tempFloat * UCHAR_MAX);
+							BytePtr[i] = (ILubyte)((ILdouble)tempFloat * UCHAR_MAX + 0.5);
 						#else
 							BytePtr[i] = (ILubyte)(((ILfloat*)Buffer)[i] * UCHAR_MAX);
 						#endif
@@ -2029,10 +2108,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 						#if CLAMP_HALF
 							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
 							tempFloat = IL_CLAMP(tempFloat);					
-							BytePtr[i] = (ILubyte)(tempFloat * UCHAR_MAX);
+							BytePtr[i] = (ILubyte)((ILdouble)tempFloat * UCHAR_MAX + 0.5);
 						#else
 							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-							BytePtr[i] = (ILubyte)(tempFloat * UCHAR_MAX);
+							BytePtr[i] = (ILubyte)((ILdouble)tempFloat * UCHAR_MAX + 0.5);
 						#endif
 					}
 					break;
@@ -2040,7 +2119,7 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					for (i = 0; i < Size; i++) {
 						#if CLAMP_DOUBLES
 							tempDouble = IL_CLAMP(((ILdouble*)Buffer)[i]);
-							BytePtr[i] = (ILubyte)(tempDouble * UCHAR_MAX);
+							BytePtr[i] = (ILubyte)(tempDouble * UCHAR_MAX + 0.5);
 						#else
 							BytePtr[i] = (ILubyte)( ((ILdouble*)Buffer)[i] * UCHAR_MAX);
 						#endif
@@ -2070,7 +2149,7 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					for (i = 0; i < Size; i++) {
 						#if CLAMP_FLOATS
 							tempFloat = IL_CLAMP(((ILfloat*)Buffer)[i]);
-							ShortPtr[i] = (ILushort)(tempFloat * USHRT_MAX);
+							ShortPtr[i] = (ILushort)((ILdouble)tempFloat * USHRT_MAX + 0.5);
 						#else
 							ShortPtr[i] = (ILushort)( ((ILfloat*)Buffer)[i] * USHRT_MAX);
 						#endif
@@ -2081,10 +2160,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 						#if CLAMP_FLOATS
 							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
 							tempFloat = IL_CLAMP(tempFloat);					
-							ShortPtr[i] = (ILushort)(tempFloat * USHRT_MAX);
+							ShortPtr[i] = (ILushort)((ILdouble)tempFloat * USHRT_MAX + 0.5);
 						#else
 							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-							ShortPtr[i] = (ILushort)(tempFloat * USHRT_MAX);
+							ShortPtr[i] = (ILushort)((ILdouble)tempFloat * USHRT_MAX + 0.5);
 						#endif
 					}
 					break;
@@ -2092,7 +2171,7 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					for (i = 0; i < Size; i++) {
 						#if CLAMP_DOUBLES
 							tempDouble = IL_CLAMP(((ILdouble*)Buffer)[i]);
-							ShortPtr[i] = (ILushort)(tempDouble * USHRT_MAX);
+							ShortPtr[i] = (ILushort)(tempDouble * USHRT_MAX + 0.5);
 						#else
 							ShortPtr[i] = (ILushort)( ((ILdouble*)Buffer)[i] * USHRT_MAX);
 						#endif
@@ -2123,7 +2202,7 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					for (i = 0; i < Size; i++) {
 						#if CLAMP_FLOATS
 							tempFloat = IL_CLAMP(((ILfloat*)Buffer)[i]);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+							IntPtr[i] = (ILuint)((ILdouble)tempFloat * UINT_MAX + 0.5);
 						#else
 							IntPtr[i] = (ILuint)( ((ILfloat*)Buffer)[i] * UINT_MAX);
 						#endif
@@ -2134,10 +2213,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 						#if CLAMP_FLOATS
 							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
 							tempFloat = IL_CLAMP(tempFloat);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+							IntPtr[i] = (ILuint)((ILdouble)tempFloat * UINT_MAX + 0.5);
 						#else
 						*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-						IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+						IntPtr[i] = (ILuint)((ILdouble)tempFloat * UINT_MAX + 0.5);
 						#endif
 					}
 					break;
@@ -2145,7 +2224,7 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					for (i = 0; i < Size; i++) {
 						#if CLAMP_DOUBLES
 							tempDouble = IL_CLAMP(((ILdouble*)Buffer)[i]);
-							IntPtr[i] = (ILuint)(tempDouble * UINT_MAX);
+							IntPtr[i] = (ILuint)(tempDouble * UINT_MAX + 0.5);
 						#else
 							IntPtr[i] = (ILuint)( ((ILdouble*)Buffer)[i] * UINT_MAX);
 						#endif
-- 
2.43.0


From aa501c5c834f62b64baddcdd551c4d81e2c0ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 030/161] fix: palette image conversion used the wrong palette,
 overran it and ignored depth; chains converted all or nothing

---
 DevIL/src-IL/src/il_convert.cpp | 202 ++++++++++++++++++--------------
 1 file changed, 115 insertions(+), 87 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index ef7aa63..961aa1e 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -18,50 +18,51 @@
 ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 {
 	static const ILfloat LumFactor[3] = { 0.212671f, 0.715160f, 0.072169f };  // http://www.inforamp.net/~poynton/ and libpng's libpng.txt - Used for conversion to luminance.
-	ILimage		*NewImage = NULL, *CurImage = NULL;
-	ILuint		i, j, k, c, Size, LumBpp = 1;
+	ILimage		*NewImage = NULL;
+	ILuint		i, j, k, c, Size, NumCols, LumBpp = 1;
 	ILfloat		Resultf;
 	ILubyte		*Temp = NULL;
-	ILboolean	Converted;
-	ILboolean	HasAlpha;
+	ILboolean	HasAlpha = IL_FALSE;
+	ILpal		*NewPal;
+
+	if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE || Image->Bpp != 1 || Image->Bpc != 1) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return NULL;
+	}
+	NumCols = Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType);
 
 	NewImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 	if (NewImage == NULL) {
 		return IL_FALSE;
 	}
 
-	ilCopyImageAttr(NewImage, Image);
-
-	if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE || Image->Bpp != 1) {
+	if (!ilCopyImageAttr(NewImage, Image)) {
 		ilCloseImage(NewImage);
-		ilSetError(IL_ILLEGAL_OPERATION);
 		return NULL;
 	}
 
 	if (DestFormat == IL_LUMINANCE || DestFormat == IL_LUMINANCE_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
 		if (DestFormat == IL_LUMINANCE_ALPHA)
 			LumBpp = 2;
 
-		switch (iCurImage->Pal.PalType)
+		switch (Image->Pal.PalType)
 		{
 			case IL_PAL_RGB24:
 			case IL_PAL_RGB32:
 			case IL_PAL_RGBA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
+				Temp = (ILubyte*)ialloc(LumBpp * NumCols);
 				if (Temp == NULL)
 					goto alloc_error;
 
 				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
+				for (i = 0, k = 0; k < NumCols * LumBpp; i += Size, k += LumBpp) {
 					Resultf = 0.0f;
-					for (c = 0; c < Size; c++) {
+					for (c = 0; c < 3; c++) {
 						Resultf += Image->Pal.Palette[i + c] * LumFactor[c];
 					}
 					Temp[k] = (ILubyte)Resultf;
 					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
+						if (Image->Pal.PalType == IL_PAL_RGBA32)
 							Temp[k+1] = Image->Pal.Palette[i + 3];
 						else
 							Temp[k+1] = 0xff;
@@ -73,19 +74,19 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 			case IL_PAL_BGR24:
 			case IL_PAL_BGR32:
 			case IL_PAL_BGRA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
+				Temp = (ILubyte*)ialloc(LumBpp * NumCols);
 				if (Temp == NULL)
 					goto alloc_error;
 
 				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
+				for (i = 0, k = 0; k < NumCols * LumBpp; i += Size, k += LumBpp) {
 					Resultf = 0.0f;  j = 2;
-					for (c = 0; c < Size; c++, j--) {
+					for (c = 0; c < 3; c++, j--) {
 						Resultf += Image->Pal.Palette[i + c] * LumFactor[j];
 					}
 					Temp[k] = (ILubyte)Resultf;
 					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
+						if (Image->Pal.PalType == IL_PAL_BGRA32)
 							Temp[k+1] = Image->Pal.Palette[i + 3];
 						else
 							Temp[k+1] = 0xff;
@@ -95,26 +96,29 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 				break;
 		}
 
+		ifree(NewImage->Pal.Palette);
 		NewImage->Pal.Palette = NULL;
 		NewImage->Pal.PalSize = 0;
 		NewImage->Pal.PalType = IL_PAL_NONE;
 		NewImage->Format = DestFormat;
 		NewImage->Bpp = LumBpp;
 		NewImage->Bps = NewImage->Width * LumBpp;
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
 		if (NewImage->Data == NULL)
 			goto alloc_error;
 
 		if (LumBpp == 2) {
 			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
+				// Indices beyond the palette are black.
+				NewImage->Data[i*2] = Image->Data[i] < NumCols ? Temp[Image->Data[i] * 2] : 0;
+				NewImage->Data[i*2+1] = Image->Data[i] < NumCols ? Temp[Image->Data[i] * 2 + 1] : 0xFF;
 			}
 		}
 		else {
 			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i] = Temp[Image->Data[i]];
+				NewImage->Data[i] = Image->Data[i] < NumCols ? Temp[Image->Data[i]] : 0;
 			}
 		}
 
@@ -123,10 +127,8 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		return NewImage;
 	}
 	else if (DestFormat == IL_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
 
-		switch (iCurImage->Pal.PalType)
+		switch (Image->Pal.PalType)
 		{
 			// Opaque, so all the values are 0xFF.
 			case IL_PAL_RGB24:
@@ -144,28 +146,29 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 					goto alloc_error;
 
 				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += 1) {
+				for (i = 0, k = 0; k < NumCols * LumBpp; i += Size, k += 1) {
 					Temp[k] = Image->Pal.Palette[i + 3];
 				}
 
 				break;
 		}
 
+		ifree(NewImage->Pal.Palette);
 		NewImage->Pal.Palette = NULL;
 		NewImage->Pal.PalSize = 0;
 		NewImage->Pal.PalType = IL_PAL_NONE;
 		NewImage->Format = DestFormat;
 		NewImage->Bpp = LumBpp;
 		NewImage->Bps = NewImage->Width * 1;  // Alpha is only one byte.
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
 		if (NewImage->Data == NULL)
 			goto alloc_error;
 
 		if (HasAlpha) {
 			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
+				NewImage->Data[i] = Image->Data[i] < NumCols ? Temp[Image->Data[i]] : 0xFF;
 			}
 		}
 		else {  // No alpha, opaque.
@@ -188,40 +191,30 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		return NULL;
 	}
 
-	CurImage = iCurImage;
-	ilSetCurImage(NewImage);
-
 	switch (DestFormat)
 	{
 		case IL_RGB:
-			Converted = ilConvertPal(IL_PAL_RGB24);
+			NewPal = iConvertPal(&Image->Pal, IL_PAL_RGB24);
 			break;
 
 		case IL_BGR:
-			Converted = ilConvertPal(IL_PAL_BGR24);
+			NewPal = iConvertPal(&Image->Pal, IL_PAL_BGR24);
 			break;
 
 		case IL_RGBA:
-			Converted = ilConvertPal(IL_PAL_RGB32);
+			NewPal = iConvertPal(&Image->Pal, IL_PAL_RGBA32);
 			break;
 
 		case IL_BGRA:
-			Converted = ilConvertPal(IL_PAL_BGR32);
+			NewPal = iConvertPal(&Image->Pal, IL_PAL_BGRA32);
 			break;
 
 		case IL_COLOUR_INDEX:
-			// Just copy the original image over.
-			NewImage->Data = (ILubyte*)ialloc(CurImage->SizeOfData);
+			// Just copy the original image over (the palette has been copied already).
+			NewImage->Data = (ILubyte*)ialloc(Image->SizeOfData);
 			if (NewImage->Data == NULL)
 				goto alloc_error;
-			NewImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (NewImage->Pal.Palette == NULL)
-				goto alloc_error;
-			memcpy(NewImage->Data, CurImage->Data, CurImage->SizeOfData);
-			memcpy(NewImage->Pal.Palette, Image->Pal.Palette, Image->Pal.PalSize);
-			NewImage->Pal.PalSize = Image->Pal.PalSize;
-			NewImage->Pal.PalType = Image->Pal.PalType;
-			ilSetCurImage(CurImage);
+			memcpy(NewImage->Data, Image->Data, Image->SizeOfData);
 			return NewImage;
 
 		default:
@@ -230,12 +223,19 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 			return NULL;
 	}
 
-	// Resize to new bpp
-	ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1);
+	// iConvertPal already sets the error message - no need to confuse the user.
+	if (NewPal == NULL) {
+		ilCloseImage(NewImage);
+		return NULL;
+	}
+	ifree(NewImage->Pal.Palette);
+	NewImage->Pal.Palette = NewPal->Palette;
+	NewImage->Pal.PalSize = NewPal->PalSize;
+	NewImage->Pal.PalType = NewPal->PalType;
+	ifree(NewPal);
 
-	// ilConvertPal already sets the error message - no need to confuse the user.
-	if (!Converted) {
-		ilSetCurImage(CurImage);
+	// Resize to new bpp
+	if (!ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1)) {
 		ilCloseImage(NewImage);
 		return NULL;
 	}
@@ -243,7 +243,10 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 	Size = ilGetBppPal(NewImage->Pal.PalType);
 	for (i = 0; i < Image->SizeOfData; i++) {
 		for (c = 0; c < NewImage->Bpp; c++) {
-			NewImage->Data[i * NewImage->Bpp + c] = NewImage->Pal.Palette[Image->Data[i] * Size + c];
+			if (Image->Data[i] < NumCols)
+				NewImage->Data[i * NewImage->Bpp + c] = NewImage->Pal.Palette[Image->Data[i] * Size + c];
+			else  // Indices beyond the palette are black.
+				NewImage->Data[i * NewImage->Bpp + c] = c == 3 ? 0xFF : 0;
 		}
 	}
 
@@ -252,16 +255,12 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 	NewImage->Pal.Palette = NULL;
 	NewImage->Pal.PalSize = 0;
 	NewImage->Pal.PalType = IL_PAL_NONE;
-	ilSetCurImage(CurImage);
 
 	return NewImage;
 
 alloc_error:
 	ifree(Temp);
-	if (NewImage)
-		ilCloseImage(NewImage);
-	if (CurImage != iCurImage)
-		ilSetCurImage(CurImage);
+	ilCloseImage(NewImage);
 	return NULL;
 }
 
@@ -274,16 +273,20 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols);
 // Converts an image from one format to another
 ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenum DestType)
 {
-	ILimage	*NewImage, *CurImage;
+	ILimage	*NewImage;
 	ILuint	i;
 	ILubyte	*NewData;
 
-	CurImage = Image;
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	if (ilGetBpcType(DestType) == 0) {
+		ilSetError(IL_INVALID_CONVERSION);
+		return NULL;
+	}
+
 	// We don't support 16-bit color indices (or higher).
 	if (DestFormat == IL_COLOUR_INDEX && DestType >= IL_SHORT) {
 		ilSetError(IL_INVALID_CONVERSION);
@@ -302,13 +305,12 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 
 		NewData = (ILubyte*)ilConvertBuffer(NewImage->SizeOfData, NewImage->Format, DestFormat, NewImage->Type, DestType, NULL, NewImage->Data);
 		if (NewData == NULL) {
-			ifree(NewImage);  // ilCloseImage not needed.
+			ilCloseImage(NewImage);
 			return NULL;
 		}
 		ifree(NewImage->Data);
 		NewImage->Data = NewData;
 
-		ilCopyImageAttr(NewImage, Image);
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
@@ -335,7 +337,10 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 			return NULL;
 		}
 
-		ilCopyImageAttr(NewImage, Image);
+		if (!ilCopyImageAttr(NewImage, Image)) {
+			ilCloseImage(NewImage);
+			return NULL;
+		}
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
@@ -348,22 +353,26 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 			NewImage->Pal.PalSize = 768;
 			NewImage->Pal.PalType = IL_PAL_RGB24;
 			NewImage->Pal.Palette = (ILubyte*)ialloc(768);
+			if (NewImage->Pal.Palette == NULL) {
+				ilCloseImage(NewImage);
+				return NULL;
+			}
 			for (i = 0; i < 256; i++) {
 				NewImage->Pal.Palette[i * 3] = i;
 				NewImage->Pal.Palette[i * 3 + 1] = i;
 				NewImage->Pal.Palette[i * 3 + 2] = i;
 			}
-			NewImage->Data = (ILubyte*)ialloc(Image->SizeOfData);
+			// The luminance is the index, so only the type may change.
+			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, IL_LUMINANCE, IL_LUMINANCE, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
 				ilCloseImage(NewImage);
 				return NULL;
 			}
-			memcpy(NewImage->Data, Image->Data, Image->SizeOfData);
 		}
 		else {
 			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, DestFormat, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
-				ifree(NewImage);  // ilCloseImage not needed.
+				ilCloseImage(NewImage);
 				return NULL;
 			}
 		}
@@ -382,20 +391,24 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 	\return Boolean value of failure or success*/
 ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 {
-	ILimage *Image, *pCurImage;
+	ILimage	*Image, *pCurImage, **Images;
+	ILuint	NumImages = 0, i;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (DestFormat == iCurImage->Format && DestType == iCurImage->Type)
-		return IL_TRUE;  // No conversion needed.
+	// The images following the current one in its chain are converted as well.
+	if (iCurImage->Next == NULL) {
+		if (DestFormat == iCurImage->Format && DestType == iCurImage->Type)
+			return IL_TRUE;  // No conversion needed.
 
-	if (DestType == iCurImage->Type) {
-		if (iFastConvert(DestFormat)) {
-			iCurImage->Format = DestFormat;
-			return IL_TRUE;
+		if (DestType == iCurImage->Type) {
+			if (iFastConvert(DestFormat)) {
+				iCurImage->Format = DestFormat;
+				return IL_TRUE;
+			}
 		}
 	}
 
@@ -403,12 +416,28 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 		ilAddAlphaKey(iCurImage);
 	}
 
-	pCurImage = iCurImage;
-	while (pCurImage != NULL)
-	{
-		Image = iConvertImage(pCurImage, DestFormat, DestType);
-		if (Image == NULL)
+	// Convert all of the images before changing any of them.
+	for (pCurImage = iCurImage; pCurImage != NULL; pCurImage = pCurImage->Next)
+		NumImages++;
+	Images = (ILimage**)icalloc(NumImages, sizeof(ILimage*));
+	if (Images == NULL)
+		return IL_FALSE;
+	for (pCurImage = iCurImage, i = 0; pCurImage != NULL; pCurImage = pCurImage->Next, i++) {
+		if (DestFormat == pCurImage->Format && DestType == pCurImage->Type)
+			continue;
+		Images[i] = iConvertImage(pCurImage, DestFormat, DestType);
+		if (Images[i] == NULL) {
+			while (i-- > 0)
+				ilCloseImage(Images[i]);
+			ifree(Images);
 			return IL_FALSE;
+		}
+	}
+
+	for (pCurImage = iCurImage, i = 0; pCurImage != NULL; pCurImage = pCurImage->Next, i++) {
+		Image = Images[i];
+		if (Image == NULL)
+			continue;
 
 		//ilCopyImageAttr(pCurImage, Image);  // Destroys subimages.
 
@@ -431,9 +460,8 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 		pCurImage->Data = Image->Data;
 		Image->Data = NULL;
 		ilCloseImage(Image);
-
-		pCurImage = pCurImage->Next;
 	}
+	ifree(Images);
 
 	return IL_TRUE;
 }
@@ -443,7 +471,7 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 //	Must be either an 8, 24 or 32-bit (coloured) image (or palette).
 ILboolean ilSwapColours()
 {
-	ILuint		i = 0, Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height;
+	ILuint		i = 0, Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height * iCurImage->Depth;
 	ILbyte		PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr, Temp;
@@ -575,10 +603,10 @@ ILboolean ilAddAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height / iCurImage->Bpc;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp + 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
@@ -706,11 +734,11 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			KeyColour[2] = KeyBlue;
 		}
 
-		Size = Image->Bps * Image->Height / Image->Bpc;
+		Size = Image->SizeOfData / Image->Bpc;
 
 		NewBpp = (ILubyte)(Image->Bpp + 1);
 		
-		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height);
+		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height * Image->Depth);
 		if (NewData == NULL) {
 			return IL_FALSE;
 		}
@@ -902,10 +930,10 @@ ILboolean ilRemoveAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp - 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
-- 
2.43.0


From a39b0466d85dada2467651b00004da2d24962655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 031/161] fix: palette conversion leaked on errors and lost the
 palette when out of memory

---
 DevIL/src-IL/src/il_pal.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index fd4a510..060717f 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -650,7 +650,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 				case IL_PAL_BGR32:
 				case IL_PAL_BGRA32:
-					NewPalSize = (ILuint)((ILfloat)Pal->PalSize * 3.0f / 4.0f);
+					NewPalSize = Pal->PalSize / 4 * 3;
 					NewPal->Palette = (ILubyte*)ialloc(NewPalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
@@ -674,7 +674,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 				case IL_PAL_RGB32:
 				case IL_PAL_RGBA32:
-					NewPalSize = (ILuint)((ILfloat)Pal->PalSize * 3.0f / 4.0f);
+					NewPalSize = Pal->PalSize / 4 * 3;
 					NewPal->Palette = (ILubyte*)ialloc(NewPalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
@@ -697,6 +697,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				default:
+					ifree(NewPal);
 					ilSetError(IL_INVALID_PARAM);
 					return NULL;
 			}
@@ -710,7 +711,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 			{
 				case IL_PAL_RGB24:
 				case IL_PAL_BGR24:
-					NewPalSize = Pal->PalSize * 4 / 3;
+					NewPalSize = Pal->PalSize / 3 * 4;
 					NewPal->Palette = (ILubyte*)ialloc(NewPalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
@@ -819,6 +820,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				default:
+					ifree(NewPal);
 					ilSetError(IL_INVALID_PARAM);
 					return NULL;
 			}
@@ -826,6 +828,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 
 		default:
+			ifree(NewPal);
 			ilSetError(IL_INVALID_PARAM);
 			return NULL;
 	}
@@ -856,16 +859,9 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 		return IL_FALSE;
 
 	ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = Pal->Palette;
 	iCurImage->Pal.PalSize = Pal->PalSize;
 	iCurImage->Pal.PalType = Pal->PalType;
-
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		return IL_FALSE;
-	}
-	memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
-
-	ifree(Pal->Palette);
 	ifree(Pal);
 	
 	return IL_TRUE;
-- 
2.43.0


From f772f712c41d13ab8c3cbcd5ff58ae6fa9b2fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 032/161] fix: ilBlit/ilOverlayImage ran outside both images,
 mixed bytes of wider types and rebound images on errors

---
 DevIL/src-IL/src/il_devil.cpp | 336 +++++++++++++++++++++-------------
 1 file changed, 204 insertions(+), 132 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index dc7bd1e..1b7669b 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -737,168 +737,240 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 }
 
 
+// Returns the image bound to Name without changing the current image.
+static ILimage *iGetNamedImage(ILuint Name)
+{
+	ILimage	*CurImage = iCurImage, *Image;
+	ILuint	CurName = ilGetCurName();
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return NULL;
+	}
+	if (Name != 0 && !ilIsImage(Name)) {
+		ilSetError(IL_INVALID_PARAM);
+		return NULL;
+	}
+
+	ilBindImage(Name);
+	Image = iCurImage;
+	ilBindImage(CurName);
+	ilSetCurImage(CurImage);  // May be a sub-image.
+
+	return Image;
+}
+
+
 //! Overlays the image found in Src on top of the current bound image at the coords specified.
 ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, ILint ZCoord)
 {
-	ILuint	Width, Height, Depth;
-	ILuint	Dest;
-	
-	Dest = ilGetCurName();
-	ilBindImage(Source);
-	Width = iCurImage->Width;  Height = iCurImage->Height;  Depth = iCurImage->Depth;
-	ilBindImage(Dest);
+	ILimage	*Src = iGetNamedImage(Source);
+
+	if (Src == NULL)
+		return IL_FALSE;
+
+	return ilBlit(Source, XCoord, YCoord, ZCoord, 0, 0, 0, Src->Width, Src->Height, Src->Depth);
+}
+
+
+// Clips the span of Size texels from Src to Dest against both images in one direction.
+//  Returns the number of texels left.
+static ILuint iClipSpan(ILint Dest, ILuint DestSize, ILuint Src, ILuint SrcSize, ILuint Size, ILuint *DestStart, ILuint *SrcStart)
+{
+	ILint64	D = Dest, S = Src, Num = Size;
+
+	if (D < 0) {
+		Num += D;
+		S -= D;
+		D = 0;
+	}
+	if (Num > (ILint64)SrcSize - S)
+		Num = (ILint64)SrcSize - S;
+	if (Num > (ILint64)DestSize - D)
+		Num = (ILint64)DestSize - D;
+	if (Num <= 0)
+		return 0;
+
+	*DestStart = (ILuint)D;
+	*SrcStart = (ILuint)S;
+	return (ILuint)Num;
+}
+
+
+// Mixes one sample of Src into Dest.
+static void iBlendSample(ILubyte *Dest, const ILubyte *Src, const ILubyte *Alpha, ILenum Type)
+{
+	ILdouble	Front, Max = 1.0, D, S;
+	ILfloat		Temp;
+	ILuint		Half;
+
+	switch (Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			Max = UCHAR_MAX;
+			Front = *Alpha;  D = *Dest;  S = *Src;
+			break;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			Max = USHRT_MAX;
+			Front = *(ILushort*)Alpha;  D = *(ILushort*)Dest;  S = *(ILushort*)Src;
+			break;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			Max = UINT_MAX;
+			Front = *(ILuint*)Alpha;  D = *(ILuint*)Dest;  S = *(ILuint*)Src;
+			break;
+		case IL_HALF:
+			Half = ilHalfToFloat(*(ILushort*)Alpha);  memcpy(&Temp, &Half, sizeof(Temp));  Front = Temp;
+			Half = ilHalfToFloat(*(ILushort*)Dest);  memcpy(&Temp, &Half, sizeof(Temp));  D = Temp;
+			Half = ilHalfToFloat(*(ILushort*)Src);  memcpy(&Temp, &Half, sizeof(Temp));  S = Temp;
+			break;
+		case IL_FLOAT:
+			Front = *(ILfloat*)Alpha;  D = *(ILfloat*)Dest;  S = *(ILfloat*)Src;
+			break;
+		case IL_DOUBLE:
+			Front = *(ILdouble*)Alpha;  D = *(ILdouble*)Dest;  S = *(ILdouble*)Src;
+			break;
+		default:
+			return;
+	}
 
-	return ilBlit(Source, XCoord, YCoord, ZCoord, 0, 0, 0, Width, Height, Depth);
+	Front /= Max;
+	D = S * Front + D * (1.0 - Front);
+	switch (Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			*Dest = (ILubyte)(D + 0.5);
+			break;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			*(ILushort*)Dest = (ILushort)(D + 0.5);
+			break;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			*(ILuint*)Dest = (ILuint)(D + 0.5);
+			break;
+		case IL_HALF:
+			Temp = (ILfloat)D;
+			memcpy(&Half, &Temp, sizeof(Half));
+			*(ILushort*)Dest = ilFloatToHalf(Half);
+			break;
+		case IL_FLOAT:
+			*(ILfloat*)Dest = (ILfloat)D;
+			break;
+		case IL_DOUBLE:
+			*(ILdouble*)Dest = D;
+			break;
+	}
 }
 
+
 //@NEXT DestX,DestY,DestZ must be set to ILuint
 ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint DestZ, 
                                            ILuint SrcX,  ILuint SrcY,   ILuint SrcZ,
                                            ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILuint 		x, y, z, ConvBps, ConvSizePlane;
-	ILimage 	*Dest,*Src;
-	ILubyte 	*Converted;
-	ILuint		DestName = ilGetCurName();
-	ILuint		c;
-	ILuint		StartX, StartY, StartZ;
-	ILboolean	DestFlipped = IL_FALSE;
-	ILubyte 	*SrcTemp;
-	ILfloat		Back;
+	ILimage 	*Dest, *Src, *Converted;
+	ILenum		Format;
+	ILuint		x, y, z, c, StartX, StartY, StartZ, SrcTexel, DestTexel;
+	ILuint		SrcRow, DestRow, Colours;
+	ILubyte 	*SrcPtr, *DestPtr;
+	ILboolean	Blend;
 
 	// Check if the desiination image really exists
-	if (DestName == 0 || iCurImage == NULL) {
+	if (ilGetCurName() == 0 || iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 	Dest = iCurImage;
-	
-	// set the destination image to upper left origin
-	if (Dest->Origin == IL_ORIGIN_LOWER_LEFT) {  // Dest
-		DestFlipped = IL_TRUE;
-		ilFlipImage();
-	}
-	//DestOrigin = Dest->Origin;
-	ilBindImage(Source);
-	
+
 	// Check if the source image really exists
-	if (iCurImage == NULL) {
-		ilSetError(IL_INVALID_PARAM);
+	Src = iGetNamedImage(Source);
+	if (Src == NULL)
 		return IL_FALSE;
-	}
-	
-	Src = iCurImage;
-	
-	//@TODO test if coordinates are inside the images (hard limit for source)
-	
-	// set the source image to upper left origin
-	if (Src->Origin == IL_ORIGIN_LOWER_LEFT)
+
+	// Limit the copy to data inside of both images
+	Width  = iClipSpan(DestX, Dest->Width,  SrcX, Src->Width,  Width,  &StartX, &SrcX);
+	Height = iClipSpan(DestY, Dest->Height, SrcY, Src->Height, Height, &StartY, &SrcY);
+	Depth  = iClipSpan(DestZ, Dest->Depth,  SrcZ, Src->Depth,  Depth,  &StartZ, &SrcZ);
+
+	// In case of an alpha channel, the data is blended. Keeps the original alpha.
+	switch (Src->Format)
 	{
-		SrcTemp = iGetFlipped(iCurImage);
-		if (SrcTemp == NULL)
+		case IL_RGBA:
+		case IL_BGRA:
+		case IL_LUMINANCE_ALPHA:
+			Blend = ilIsEnabled(IL_BLIT_BLEND);
+			break;
+		default:
+			Blend = IL_FALSE;
+			break;
+	}
+
+	// convert source image to match the destination image type and format,
+	//  but keep its alpha channel for the blending
+	Format = Dest->Format;
+	Colours = Dest->Bpp;
+	if (Blend) {
+		switch (Format)
 		{
-			ilBindImage(DestName);
-			if (DestFlipped)
-				ilFlipImage();
-			return IL_FALSE;
+			case IL_RGB:
+				Format = IL_RGBA;
+				break;
+			case IL_BGR:
+				Format = IL_BGRA;
+				break;
+			case IL_LUMINANCE:
+				Format = IL_LUMINANCE_ALPHA;
+				break;
+			case IL_RGBA:
+			case IL_BGRA:
+			case IL_LUMINANCE_ALPHA:
+				Colours = Dest->Bpp - 1;
+				break;
+			default:
+				Blend = IL_FALSE;
+				break;
 		}
 	}
-	else
-	{
-		SrcTemp = iCurImage->Data;
+	if (Format == IL_COLOUR_INDEX && Src->Format != IL_COLOUR_INDEX) {
+		// The colours of the source cannot be expressed in the palette of the destination.
+		ilSetError(IL_INVALID_CONVERSION);
+		return IL_FALSE;
 	}
-	
-	// convert source image to match the destination image type and format
-	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, SrcTemp);
+	if (Width == 0 || Height == 0 || Depth == 0)
+		return IL_TRUE;
+
+	Converted = iConvertImage(Src, Format, Dest->Type);
 	if (Converted == NULL)
 		return IL_FALSE;
-	
-	ConvBps 	  = Dest->Bpp * Src->Width;
-	ConvSizePlane = ConvBps   * Src->Height;
-	
-	//@NEXT in next version this would have to be removed since Dest* will be unsigned
-	StartX = DestX >= 0 ? 0 : -DestX;
-	StartY = DestY >= 0 ? 0 : -DestY;
-	StartZ = DestZ >= 0 ? 0 : -DestZ;
-	
-	// Limit the copy of data inside of the destination image
-	if (Width  + DestX > Dest->Width)  Width  = Dest->Width  - DestX;
-	if (Height + DestY > Dest->Height) Height = Dest->Height - DestY;
-	if (Depth  + DestZ > Dest->Depth)  Depth  = Dest->Depth  - DestZ;
-	
-	//@TODO: non funziona con rgba
-	if (Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA) {
-		const ILuint bpp_without_alpha = Dest->Bpp - 1;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					const ILuint  SrcIndex  = (z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp;
-					const ILuint  DestIndex = (z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp;
-					const ILuint  AlphaIdx = SrcIndex + bpp_without_alpha;
-					ILfloat Front = 0;
-					
-					switch (Dest->Type)
-					{
-						case IL_BYTE:
-						case IL_UNSIGNED_BYTE:
-							Front = Converted[AlphaIdx]/((float)IL_MAX_UNSIGNED_BYTE);
-							break;
-						case IL_SHORT:
-						case IL_UNSIGNED_SHORT:
-							Front = ((ILshort*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_SHORT);
-							break;
-						case IL_INT:
-						case IL_UNSIGNED_INT:
-							Front = ((ILint*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_INT);
-							break;
-						case IL_FLOAT:
-							Front = ((ILfloat*)Converted)[AlphaIdx];
-							break;
-						case IL_DOUBLE:
-							Front = (ILfloat)(((ILdouble*)Converted)[AlphaIdx]);
-							break;
-					}
-					Back = 1.0f - Front;
-					// In case of Alpha channel, the data is blended. Keeps the original alpha.
-					if (ilIsEnabled(IL_BLIT_BLEND)) {
-						for (c = 0; c < bpp_without_alpha; c++)
-						{
-							Dest->Data[DestIndex + c] = 
-								(ILubyte)(Converted[SrcIndex + c] * Front
-											+ Dest->Data[DestIndex + c] * Back);
-						}
-					}
-					else {
-						for (c = 0; c < Dest->Bpp; c++)
-						{
-							Dest->Data[DestIndex + c] = (ILubyte)(Converted[SrcIndex + c]);
-						}
-					}
-				}
+
+	SrcTexel = Converted->Bpp * Converted->Bpc;
+	DestTexel = Dest->Bpp * Dest->Bpc;
+	for (z = 0; z < Depth; z++) {
+		for (y = 0; y < Height; y++) {
+			// The coordinates have their origin in the upper left
+			SrcRow = (Src->Origin == IL_ORIGIN_LOWER_LEFT) ? Src->Height - 1 - (SrcY + y) : SrcY + y;
+			DestRow = (Dest->Origin == IL_ORIGIN_LOWER_LEFT) ? Dest->Height - 1 - (StartY + y) : StartY + y;
+			SrcPtr = Converted->Data + (SrcZ + z) * Converted->SizeOfPlane + SrcRow * Converted->Bps + SrcX * SrcTexel;
+			DestPtr = Dest->Data + (StartZ + z) * Dest->SizeOfPlane + DestRow * Dest->Bps + StartX * DestTexel;
+			if (!Blend) {
+				memmove(DestPtr, SrcPtr, Width * DestTexel);
+				continue;
 			}
-		}
-	} else {
-		for( z = 0; z < Depth; z++ ) {
-			for( y = 0; y < Height; y++ ) {
-				for( x = 0; x < Width; x++ ) {
-					for( c = 0; c < Dest->Bpp; c++ ) {
-						Dest->Data[(z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp + c] =
-						 Converted[(z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp + c];
-					}
-				}
+			for (x = 0; x < Width; x++) {
+				for (c = 0; c < Colours; c++)
+					iBlendSample(DestPtr + c * Dest->Bpc, SrcPtr + c * Dest->Bpc, SrcPtr + SrcTexel - Dest->Bpc, Dest->Type);
+				SrcPtr += SrcTexel;
+				DestPtr += DestTexel;
 			}
 		}
 	}
-	
-	if (SrcTemp != iCurImage->Data)
-		ifree(SrcTemp);
-	
-	ilBindImage(DestName);
-	if (DestFlipped)
-		ilFlipImage();
-	
-	ifree(Converted);
-	
+
+	ilCloseImage(Converted);
+
 	return IL_TRUE;
 }
 
-- 
2.43.0


From 98b70c8347f1f0d94aac6966c37b2a8380623acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 033/161] fix: TIFF saves reported a wrong number of bytes

---
 DevIL/src-IL/src/il_tiff.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index d4253ba..cd2a3a2 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -907,6 +907,7 @@ ILuint ilSaveTiffF(ILHANDLE File)
 	Pos = itellw();
 	if (iSaveTiffInternal() == IL_FALSE)
 		return 0;  // Error occurred
+	iseekw(0, IL_SEEK_END);  // libtiff writes the header last.
 	return itellw() - Pos;  // Return the number of bytes written.
 }
 
@@ -919,6 +920,7 @@ ILuint ilSaveTiffL(void *Lump, ILuint Size)
 	Pos = itellw();
 	if (iSaveTiffInternal() == IL_FALSE)
 		return 0;  // Error occurred
+	iseekw(0, IL_SEEK_END);  // libtiff writes the header last.
 	return itellw() - Pos;  // Return the number of bytes written.
 }
 
-- 
2.43.0


From 44fad88baa7ca396b44a939fadcb76e9b0ab26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 034/161] fix: TIFF saves leaked strings and images, and used
 the host computer as the description

---
 DevIL/src-IL/src/il_tiff.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index cd2a3a2..751b681 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -981,6 +981,8 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	// Control writing functions ourself.
 	File = iTIFFOpen((char*)"w");
 	if (File == NULL) {
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
@@ -1014,7 +1016,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 
 
 	str = iGetString(IL_TIF_AUTHNAME_STRING);
-	if (iGetString(IL_TIF_AUTHNAME_STRING)) {
+	if (str) {
 		TIFFSetField(File, TIFFTAG_ARTIST, str);
 		ifree(str);
 	}
@@ -1025,7 +1027,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 		ifree(str);
 	}
 
-	str = iGetString(IL_TIF_HOSTCOMPUTER_STRING);
+	str = iGetString(IL_TIF_DESCRIPTION_STRING);
 	if (str) {
 		TIFFSetField(File, TIFFTAG_IMAGEDESCRIPTION, str);
 		ifree(str);
@@ -1040,6 +1042,12 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	TIFFSetField(File, TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
 	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		ILubyte* Data = iGetFlipped(TempImage);
+		if (Data == NULL) {
+			TIFFClose(File);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			return IL_FALSE;
+		}
 		OldData = TempImage->Data;
 		TempImage->Data = Data;
 	}
-- 
2.43.0


From 450e67b853ea327e17ff455e7ec5f6a326507af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 035/161] fix: TIFF luminance images were written as single
 channel RGB, which no reader accepts

---
 DevIL/src-IL/src/il_tiff.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 751b681..9b4fe55 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -996,10 +996,10 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	TIFFSetField(File, TIFFTAG_IMAGEWIDTH, TempImage->Width);
 	TIFFSetField(File, TIFFTAG_IMAGELENGTH, TempImage->Height);
 	TIFFSetField(File, TIFFTAG_COMPRESSION, Compression);
-	TIFFSetField(File, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_RGB);
+	TIFFSetField(File, TIFFTAG_PHOTOMETRIC, TempImage->Bpp < 3 ? PHOTOMETRIC_MINISBLACK : PHOTOMETRIC_RGB);
 	TIFFSetField(File, TIFFTAG_BITSPERSAMPLE, TempImage->Bpc << 3);
 	TIFFSetField(File, TIFFTAG_SAMPLESPERPIXEL, TempImage->Bpp);
-	if (TempImage->Bpp == 4) //TODO: LUMINANCE, LUMINANCE_ALPHA
+	if (TempImage->Bpp == 4 || TempImage->Bpp == 2)
 		TIFFSetField(File, TIFFTAG_MATTEING, 1);
 	TIFFSetField(File, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
 	TIFFSetField(File, TIFFTAG_ROWSPERSTRIP, 1);
-- 
2.43.0


From 6f6e1f18192311623c33acabb3b7067638cc9825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 036/161] fix: TIFF loader mixed up strips of 16-bit and
 further images, 1-bit palettes and missing colour maps

---
 DevIL/src-IL/src/il_tiff.cpp | 47 +++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 9b4fe55..108e212 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -315,7 +315,11 @@ ILboolean iLoadTiffInternal()
 	*/
 	Image = NULL;
 	for (i = 0; i < DirCount; i++) {
-		TIFFSetDirectory(tif, (tdir_t)i);
+		if (!TIFFSetDirectory(tif, (tdir_t)i)) {
+			ilSetError(IL_LIB_TIFF_ERROR);
+			TIFFClose(tif);
+			return IL_FALSE;
+		}
 		TIFFGetField(tif, TIFFTAG_IMAGEWIDTH,  &w);
 		TIFFGetField(tif, TIFFTAG_IMAGELENGTH, &h);
 
@@ -348,7 +352,7 @@ ILboolean iLoadTiffInternal()
 			&& (bitspersample == 8 || bitspersample == 1 || bitspersample == 16)
 			&& (photometric == PHOTOMETRIC_MINISWHITE
 				|| photometric == PHOTOMETRIC_MINISBLACK
-				|| photometric == PHOTOMETRIC_PALETTE)
+				|| (photometric == PHOTOMETRIC_PALETTE && bitspersample != 16))
 			&& (orientation == ORIENTATION_TOPLEFT || orientation == ORIENTATION_BOTLEFT)
 			&& tilewidth == w && tilelength == h
 			) {
@@ -369,12 +373,13 @@ ILboolean iLoadTiffInternal()
 				Image = iCurImage;
 			}
 			else {
-				Image->Next = ilNewImage(w, h, 1, 1, 1);
+				Image->Next = ilNewImage(w, h, 1, 1, bitspersample == 16 ? 2 : 1);
 				if (Image->Next == NULL) {
 					TIFFClose(tif);
 					return IL_FALSE;
 				}
 				Image = Image->Next;
+				Image->Format = IL_LUMINANCE;
 			}
 
 			if (photometric == PHOTOMETRIC_PALETTE) { //read palette
@@ -383,12 +388,22 @@ ILboolean iLoadTiffInternal()
 				ILubyte *entry;
 				uint32 count = 1 << bitspersample, j;
 		
-				TIFFGetField(tif, TIFFTAG_COLORMAP, &red, &green, &blue);
+				if (!TIFFGetField(tif, TIFFTAG_COLORMAP, &red, &green, &blue)) {
+					ilSetError(IL_LIB_TIFF_ERROR);
+					TIFFClose(tif);
+					return IL_FALSE;
+				}
 
+				if (Image->Pal.Palette)
+					ifree(Image->Pal.Palette);
 				Image->Format = IL_COLOUR_INDEX;
 				Image->Pal.PalSize = (count)*3;
 				Image->Pal.PalType = IL_PAL_RGB24;
 				Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
+				if (Image->Pal.Palette == NULL) {
+					TIFFClose(tif);
+					return IL_FALSE;
+				}
 				entry = Image->Pal.Palette;
 				for (j = 0; j < count; ++j) {
 					entry[0] = (ILubyte)(red[j] >> 8);
@@ -403,6 +418,10 @@ ILboolean iLoadTiffInternal()
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
+			if (strip == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			if (bitspersample == 8 || bitspersample == 16) {
 				ILubyte *dat = Image->Data;
@@ -431,7 +450,7 @@ ILboolean iLoadTiffInternal()
 							//making up a pixel can be inverted independently
 							for (k = 0; k < Image->Bps; ++k)
 								dat[k] = ~strip[t2 + k];
-							dat += w;
+							dat += Image->Bps;
 						}
 					}
 					else
@@ -471,7 +490,7 @@ ILboolean iLoadTiffInternal()
 								curr = ~curr;
 							for (mask = 0x80; mask != 0 && k < w; mask >>= 1){
 								if((curr & mask) != 0)
-									dat[k] = 255;
+									dat[k] = photometric == PHOTOMETRIC_PALETTE ? 1 : 255;
 								else
 									dat[k] = 0;
 								++k;
@@ -490,9 +509,9 @@ ILboolean iLoadTiffInternal()
 			else if(orientation == ORIENTATION_BOTLEFT)
 				Image->Origin = IL_ORIGIN_LOWER_LEFT;
 		}
-		//for 16bit rgb images:
-		else if (extrasamples == 0
-			&& samplesperpixel == 3
+		//for 16bit rgb(a) images:
+		else if (((extrasamples == 0 && samplesperpixel == 3)
+				|| (extrasamples == 1 && samplesperpixel == 4 && bitspersample == 16 && sampleinfo[0] != EXTRASAMPLE_UNASSALPHA))
 			&& (bitspersample == 8 || bitspersample == 16)
 			&& photometric == PHOTOMETRIC_RGB
 			&& planarconfig == 1
@@ -507,19 +526,20 @@ ILboolean iLoadTiffInternal()
 			if (!Image) {
 				int type = IL_UNSIGNED_BYTE;
 				if (bitspersample == 16) type = IL_UNSIGNED_SHORT;
-				if(!ilTexImage(w, h, 1, 3, IL_RGB, type, NULL)) {
+				if(!ilTexImage(w, h, 1, samplesperpixel, samplesperpixel == 4 ? IL_RGBA : IL_RGB, type, NULL)) {
 					TIFFClose(tif);
 					return IL_FALSE;
 				}
 				Image = iCurImage;
 			}
 			else {
-				Image->Next = ilNewImage(w, h, 1, 1, 1);
+				Image->Next = ilNewImage(w, h, 1, samplesperpixel, bitspersample == 16 ? 2 : 1);
 				if(Image->Next == NULL) {
 					TIFFClose(tif);
 					return IL_FALSE;
 				}
 				Image = Image->Next;
+				Image->Format = samplesperpixel == 4 ? IL_RGBA : IL_RGB;
 			}
 
 			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
@@ -527,6 +547,11 @@ ILboolean iLoadTiffInternal()
 
 			strip = (ILubyte*)ialloc(stripsize);
 
+			if (strip == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
+
 			dat = Image->Data;
 			for (y = 0; y < h; y += rowsperstrip) {
 				//the last strip may contain less data if the image
-- 
2.43.0


From 5af17a60090d4ae84c1194ea0401b5aa88db27bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 037/161] fix: JPEG loader hangs or invents pixels on truncated
 files and discards other errors; saver exits the process on libjpeg errors

---
 DevIL/src-IL/include/il_internal.h |  1 +
 DevIL/src-IL/src/il_error.cpp      | 12 ++++++++++
 DevIL/src-IL/src/il_gif.cpp        |  7 +++---
 DevIL/src-IL/src/il_jpeg.cpp       | 37 +++++++++++++++---------------
 DevIL/src-IL/src/il_pcx.cpp        |  7 ++++--
 DevIL/src-IL/src/il_psp.cpp        |  8 ++++---
 6 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index e2c8560..9c6d050 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -181,6 +181,7 @@ ILuint		ilCharStrLen(const char *Str);
 void					ilDefaultStates(void);
 void					iFreeStates(void);
 ILenum					iGetHint(ILenum Target);
+void					iQuietErrors(ILboolean Quiet);
 ILint					iGetInt(ILenum Mode);
 void					ilRemoveRegistered(void);
 ILAPI void ILAPIENTRY	ilSetCurImage(ILimage *Image);
diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 159c7df..c56a8e8 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -19,6 +19,7 @@
 
 ILenum	ilErrorNum[IL_ERROR_STACK_SIZE];
 ILint	ilErrorPlace = (-1);
+static ILboolean QuietErrors = IL_FALSE;
 
 
 // Sets the current error
@@ -27,6 +28,9 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 {
 	ILuint i;
 
+	if (QuietErrors)
+		return;
+
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
 		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
@@ -40,6 +44,14 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 }
 
 
+// Keeps errors off the stack around an operation that may fail as a matter of course, such as
+//  reading the last, short buffer of a file.
+void iQuietErrors(ILboolean Quiet)
+{
+	QuietErrors = Quiet;
+}
+
+
 //! Gets the last error on the error stack
 ILenum ILAPIENTRY ilGetError(void)
 {
diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index bf4013c..88862ce 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -256,16 +256,17 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 		ImageDesc.Separator = igetc();
 		if (ImageDesc.Separator != 0x2C) //end of image
 			break;
+		// Running into the end of the file here just ends the list of images.
+		iQuietErrors(IL_TRUE);
 		ImageDesc.OffX = GetLittleUShort();
 		ImageDesc.OffY = GetLittleUShort();
 		ImageDesc.Width = GetLittleUShort();
 		ImageDesc.Height = GetLittleUShort();
 		ImageDesc.ImageInfo = igetc();
+		iQuietErrors(IL_FALSE);
 
-		if (ieof()) {
-			ilGetError();  // Gets rid of the IL_FILE_READ_ERROR that inevitably results.
+		if (ieof())
 			break;
-		}
 
 
 		if (!BaseImage) {
diff --git a/DevIL/src-IL/src/il_jpeg.cpp b/DevIL/src-IL/src/il_jpeg.cpp
index 4cc1648..61b29f3 100644
--- a/DevIL/src-IL/src/il_jpeg.cpp
+++ b/DevIL/src-IL/src/il_jpeg.cpp
@@ -233,22 +233,18 @@ fill_input_buffer (j_decompress_ptr cinfo)
 	iread_ptr src = (iread_ptr) cinfo->src;
 	ILint nbytes;
 
+	// The last buffer of a file is usually a short one, which is not an error.
+	iQuietErrors(IL_TRUE);
 	nbytes = iread(src->buffer, 1, INPUT_BUF_SIZE);
+	iQuietErrors(IL_FALSE);
 
 	if (nbytes <= 0) {
-		if (src->start_of_file) {  // Treat empty input file as fatal error
-			//ERREXIT(cinfo, JERR_INPUT_EMPTY);
-			jpgErrorOccured = IL_TRUE;
-		}
 		//WARNMS(cinfo, JWRN_JPEG_EOF);
-		// Insert a fake EOI marker
+		// Insert a fake EOI marker.  libjpeg itself treats it as an error when
+		//  there has not been an image yet.
 		src->buffer[0] = (JOCTET) 0xFF;
 		src->buffer[1] = (JOCTET) JPEG_EOI;
 		nbytes = 2;
-		return (boolean)IL_FALSE;
-	}
-	if (nbytes < INPUT_BUF_SIZE) {
-		ilGetError();  // Gets rid of the IL_FILE_READ_ERROR.
 	}
 
 	src->pub.next_input_byte = src->buffer;
@@ -344,12 +340,8 @@ ILboolean iLoadJpegInternal()
 
 		result = ilLoadFromJpegStruct(&JpegInfo);
 
-		jpeg_finish_decompress(&JpegInfo);
-		jpeg_destroy_decompress(&JpegInfo);
-
-	}
-	else
-	{
+		if (result)
+			jpeg_finish_decompress(&JpegInfo);
 		jpeg_destroy_decompress(&JpegInfo);
 	}
 
@@ -485,6 +477,8 @@ ILboolean iSaveJpegInternal()
 	ILimage		*TempImage;
 	ILubyte		*TempData;
 	ILenum		Type = 0;
+	ILint		Quality = iGetInt(IL_JPG_QUALITY);
+	ILboolean	Saved = IL_FALSE;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -520,6 +514,11 @@ ILboolean iSaveJpegInternal()
 
 
 	JpegInfo.err = jpeg_std_error(&Error);
+	Error.error_exit = iJpegErrorExit;
+	Error.output_message = OutputMsg;
+	if (setjmp(JpegJumpBuffer) != 0)
+		goto cleanup;  // libjpeg refused something, e.g. an image that is too large for it.
+
 	// Now we can initialize the JPEG compression object.
 	jpeg_create_compress(&JpegInfo);
 
@@ -554,7 +553,7 @@ ILboolean iSaveJpegInternal()
 //#endif//IL_USE_JPEGLIB_UNMODIFIED
 
 	// Set the quality output
-	jpeg_set_quality(&JpegInfo, iGetInt(IL_JPG_QUALITY), (boolean)IL_TRUE);
+	jpeg_set_quality(&JpegInfo, Quality, (boolean)IL_TRUE);
 	// Sets progressive saving here
 	if (ilGetBoolean(IL_JPG_PROGRESSIVE))
 		jpeg_simple_progression(&JpegInfo);
@@ -578,13 +577,15 @@ ILboolean iSaveJpegInternal()
 
 	// This is an important step since it will release a good deal of memory.
 	jpeg_destroy_compress(&JpegInfo);
+	Saved = IL_TRUE;
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
+cleanup:
+	if (TempData != TempImage->Data)
 		ifree(TempData);
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
 
-	return IL_TRUE;
+	return Saved;
 }
 
 
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 1ab0210..38906d9 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -318,9 +318,12 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 
 	// Read in the palette
 	if (Header->Version == 5 && iCurImage->Bpp == 1) {
+		ILuint HeadRead;
 		x = itell();
-		if (iread(&ByteHead, 1, 1) == 0) {  // If true, assume that we have a luminance image.
-			ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
+		iQuietErrors(IL_TRUE);
+		HeadRead = iread(&ByteHead, 1, 1);
+		iQuietErrors(IL_FALSE);
+		if (HeadRead == 0) {  // If true, assume that we have a luminance image.
 			iCurImage->Format = IL_LUMINANCE;
 			if (iCurImage->Pal.Palette)
 				ifree(iCurImage->Pal.Palette);
diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index d8c6669..1140df5 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -250,10 +250,12 @@ ILboolean ParseChunks()
 	ILuint		Pos;
 
 	do {
-		if (iread(&Block, 1, sizeof(Block)) != sizeof(Block)) {
-			ilGetError();  // Get rid of the erroneous IL_FILE_READ_ERROR.
+		ILuint BlockRead;
+		iQuietErrors(IL_TRUE);  // The end of the file is no error here.
+		BlockRead = iread(&Block, 1, sizeof(Block));
+		iQuietErrors(IL_FALSE);
+		if (BlockRead != sizeof(Block))
 			return IL_TRUE;
-		}
 		if (Header.MajorVersion == 3)
 			Block.BlockLen = GetLittleUInt();
 		else
-- 
2.43.0


From 0cff287cf88d45fdbf417cd9e10c6075a7583e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 038/161] fix: ilClearImage invents palettes for indexed
 images, ignores IL_HALF and IL_ALPHA, and clears luminance to the alpha value

---
 DevIL/src-IL/src/il_devil.cpp | 416 +++++++---------------------------
 1 file changed, 83 insertions(+), 333 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 1b7669b..b953508 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -366,274 +366,78 @@ void ILAPIENTRY ilClearColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILcla
 }
 
 
-ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
+// Puts one channel of the clearing colour at Dest.
+static void iPutClearValue(ILubyte *Dest, ILenum Type, ILfloat Value)
 {
-	ILubyte 	*BytePtr;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILfloat 	*FloatPtr;
-	ILdouble	*DblPtr;
-	
+	union {
+		ILubyte		Byte;
+		ILushort	Short;
+		ILuint		Int;
+		ILfloat		Float;
+		ILdouble	Double;
+	} Val;
+	ILuint Bits;
+
 	switch (Type)
 	{
 		case IL_BYTE:
 		case IL_UNSIGNED_BYTE:
-			BytePtr = (ILubyte*)Colours;
-			switch (Format)
-			{
-				case IL_RGB:
-					BytePtr[0] = (ILubyte)(ClearRed * UCHAR_MAX);
-					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
-					BytePtr[2] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					break;
-					
-				case IL_RGBA:
-					BytePtr[0] = (ILubyte)(ClearRed * UCHAR_MAX);
-					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
-					BytePtr[2] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					break;
-					
-				case IL_BGR:
-					BytePtr[2] = (ILubyte)(ClearRed * UCHAR_MAX);
-					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
-					BytePtr[0] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					break;
-					
-				case IL_BGRA:
-					BytePtr[2] = (ILubyte)(ClearRed * UCHAR_MAX);
-					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
-					BytePtr[0] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					break;
-					
-				case IL_LUMINANCE:
-					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					break;
-					
-				case IL_LUMINANCE_ALPHA:
-					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
-					BytePtr[1] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					
-				case IL_COLOUR_INDEX:
-					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
-					break;
-					
-				default:
-					ilSetError(IL_INTERNAL_ERROR);
-					return;
-			}
-				break;
-			
+			Val.Byte = (ILubyte)(Value * UCHAR_MAX);
+			break;
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
-			ShortPtr = (ILushort*)Colours;
-			switch (Format)
-			{
-				case IL_RGB:
-					ShortPtr[0] = (ILushort)(ClearRed * USHRT_MAX);
-					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
-					ShortPtr[2] = (ILushort)(ClearBlue * USHRT_MAX);
-					break;
-					
-				case IL_RGBA:
-					ShortPtr[0] = (ILushort)(ClearRed * USHRT_MAX);
-					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
-					ShortPtr[2] = (ILushort)(ClearBlue * USHRT_MAX);
-					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				case IL_BGR:
-					ShortPtr[2] = (ILushort)(ClearRed * USHRT_MAX);
-					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
-					ShortPtr[0] = (ILushort)(ClearBlue * USHRT_MAX);
-					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				case IL_BGRA:
-					ShortPtr[2] = (ILushort)(ClearRed * USHRT_MAX);
-					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
-					ShortPtr[0] = (ILushort)(ClearBlue * USHRT_MAX);
-					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				case IL_LUMINANCE:
-					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				case IL_LUMINANCE_ALPHA:
-					ShortPtr[0] = (ILushort)(ClearLum * USHRT_MAX);
-					ShortPtr[1] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				case IL_COLOUR_INDEX:
-					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
-					break;
-					
-				default:
-					ilSetError(IL_INTERNAL_ERROR);
-					return;
-			}
-				break;
-			
+			Val.Short = (ILushort)(Value * USHRT_MAX);
+			break;
 		case IL_INT:
 		case IL_UNSIGNED_INT:
-			IntPtr = (ILuint*)Colours;
-			switch (Format)
-			{
-				case IL_RGB:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
-					break;
-					
-				case IL_RGBA:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				case IL_BGR:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				case IL_BGRA:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				case IL_LUMINANCE:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				case IL_LUMINANCE_ALPHA:
-					IntPtr[0] = (ILuint)(ClearLum * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				case IL_COLOUR_INDEX:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
-					break;
-					
-				default:
-					ilSetError(IL_INTERNAL_ERROR);
-					return;
-			}
-				break;
-			
+			Val.Int = (ILuint)((ILdouble)Value * UINT_MAX);
+			break;
+		case IL_HALF:
+			memcpy(&Bits, &Value, sizeof(Bits));
+			Val.Short = ilFloatToHalf(Bits);
+			break;
 		case IL_FLOAT:
-			FloatPtr = (ILfloat*)Colours;
-			switch (Format)
-			{
-				case IL_RGB:
-					FloatPtr[0] = ClearRed;
-					FloatPtr[1] = ClearGreen;
-					FloatPtr[2] = ClearBlue;
-					break;
-					
-				case IL_RGBA:
-					FloatPtr[0] = ClearRed;
-					FloatPtr[1] = ClearGreen;
-					FloatPtr[2] = ClearBlue;
-					FloatPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_BGR:
-					FloatPtr[2] = ClearRed;
-					FloatPtr[1] = ClearGreen;
-					FloatPtr[0] = ClearBlue;
-					FloatPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_BGRA:
-					FloatPtr[2] = ClearRed;
-					FloatPtr[1] = ClearGreen;
-					FloatPtr[0] = ClearBlue;
-					FloatPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_LUMINANCE:
-					FloatPtr[0] = ClearAlpha;
-					break;
-					
-				case IL_LUMINANCE_ALPHA:
-					FloatPtr[0] = ClearLum;
-					FloatPtr[0] = ClearAlpha;
-					break;
-					
-				case IL_COLOUR_INDEX:
-					FloatPtr[0] = ClearAlpha;
-					break;
-					
-				default:
-					ilSetError(IL_INTERNAL_ERROR);
-					return;
-			}
-				break;
-			
-		case IL_DOUBLE:
-			DblPtr = (ILdouble*)Colours;
-			switch (Format)
-			{
-				case IL_RGB:
-					DblPtr[0] = ClearRed;
-					DblPtr[1] = ClearGreen;
-					DblPtr[2] = ClearBlue;
-					break;
-					
-				case IL_RGBA:
-					DblPtr[0] = ClearRed;
-					DblPtr[1] = ClearGreen;
-					DblPtr[2] = ClearBlue;
-					DblPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_BGR:
-					DblPtr[2] = ClearRed;
-					DblPtr[1] = ClearGreen;
-					DblPtr[0] = ClearBlue;
-					DblPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_BGRA:
-					DblPtr[2] = ClearRed;
-					DblPtr[1] = ClearGreen;
-					DblPtr[0] = ClearBlue;
-					DblPtr[3] = ClearAlpha;
-					break;
-					
-				case IL_LUMINANCE:
-					DblPtr[0] = ClearAlpha;
-					break;
-					
-				case IL_LUMINANCE_ALPHA:
-					DblPtr[0] = ClearLum;
-					DblPtr[1] = ClearAlpha;
-					break;
-					
-				case IL_COLOUR_INDEX:
-					DblPtr[0] = ClearAlpha;
-					break;
-					
-				default:
-					ilSetError(IL_INTERNAL_ERROR);
-					return;
-			}
-				break;
-			
-		default:
-			ilSetError(IL_INTERNAL_ERROR);
-			return;
+			Val.Float = Value;
+			break;
+		default:  // IL_DOUBLE
+			Val.Double = Value;
+			break;
 	}
-	
-	return;
+
+	memcpy(Dest, &Val, ilGetBpcType(Type));
+}
+
+
+ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
+{
+	ILfloat	Values[4] = { ClearRed, ClearGreen, ClearBlue, ClearAlpha };
+	ILubyte	Channels = ilGetBppFormat(Format), Bpc = ilGetBpcType(Type), c;
+
+	if (Channels == 0 || Bpc == 0) {
+		ilSetError(IL_INTERNAL_ERROR);
+		return;
+	}
+
+	switch (Format)
+	{
+		case IL_BGR:
+		case IL_BGRA:
+			Values[0] = ClearBlue;
+			Values[2] = ClearRed;
+			break;
+		case IL_LUMINANCE:
+		case IL_LUMINANCE_ALPHA:
+			Values[0] = ClearLum;
+			Values[1] = ClearAlpha;
+			break;
+		case IL_ALPHA:
+		case IL_COLOUR_INDEX:
+			Values[0] = ClearAlpha;
+			break;
+	}
+
+	for (c = 0; c < Channels; c++)
+		iPutClearValue((ILubyte*)Colours + c * Bpc, Type, Values[c]);
 }
 
 
@@ -651,88 +455,34 @@ ILboolean ILAPIENTRY ilClearImage()
 
 ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 {
-	ILuint		i, c, NumBytes;
+	ILuint		i, NumBytes;
 	ILubyte 	Colours[32];  // Maximum is sizeof(double) * 4 = 32
-	ILubyte 	*BytePtr;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILfloat 	*FloatPtr;
-	ILdouble	*DblPtr;
-	
-	NumBytes = Image->Bpp * Image->Bpc;
-	ilGetClear(Colours, Image->Format, Image->Type);
-	
-	if (Image->Format != IL_COLOUR_INDEX) {
-		switch (Image->Type)
-		{
-			case IL_BYTE:
-			case IL_UNSIGNED_BYTE:
-				BytePtr = (ILubyte*)Colours;
-				for (c = 0; c < NumBytes; c += Image->Bpc) {
-					for (i = c; i < Image->SizeOfData; i += NumBytes) {
-						Image->Data[i] = BytePtr[c];
-					}
-				}
-					break;
-				
-			case IL_SHORT:
-			case IL_UNSIGNED_SHORT:
-				ShortPtr = (ILushort*)Colours;
-				for (c = 0; c < NumBytes; c += Image->Bpc) {
-					for (i = c; i < Image->SizeOfData; i += NumBytes) {
-						*((ILushort*)(Image->Data + i)) = ShortPtr[c / Image->Bpc];
-					}
-				}
-					break;
-				
-			case IL_INT:
-			case IL_UNSIGNED_INT:
-				IntPtr = (ILuint*)Colours;
-				for (c = 0; c < NumBytes; c += Image->Bpc) {
-					for (i = c; i < Image->SizeOfData; i += NumBytes) {
-						*((ILuint*)(Image->Data + i)) = IntPtr[c / Image->Bpc];
-					}
-				}
-					break;
-				
-			case IL_FLOAT:
-				FloatPtr = (ILfloat*)Colours;
-				for (c = 0; c < NumBytes; c += Image->Bpc) {
-					for (i = c; i < Image->SizeOfData; i += NumBytes) {
-						*((ILfloat*)(Image->Data + i)) = FloatPtr[c / Image->Bpc];
-					}
-				}
-					break;
-				
-			case IL_DOUBLE:
-				DblPtr = (ILdouble*)Colours;
-				for (c = 0; c < NumBytes; c += Image->Bpc) {
-					for (i = c; i < Image->SizeOfData; i += NumBytes) {
-						*((ILdouble*)(Image->Data + i)) = DblPtr[c / Image->Bpc];
-					}
-				}
-					break;
-		}
-	}
-	else {
-		imemclear(Image->Data, Image->SizeOfData);
-		
+	ILubyte		*Palette;
+
+	if (Image->Format == IL_COLOUR_INDEX) {
+		// All zeros, with a palette of one entry that is all zeros, too
+		Palette = (ILubyte*)icalloc(1, 4);
+		if (Palette == NULL)
+			return IL_FALSE;
 		if (Image->Pal.Palette)
 			ifree(Image->Pal.Palette);
-		Image->Pal.Palette = (ILubyte*)ialloc(4);
-		if (Image->Pal.Palette == NULL) {
-			return IL_FALSE;
-		}
-		
+		Image->Pal.Palette = Palette;
 		Image->Pal.PalType = IL_PAL_RGBA32;
 		Image->Pal.PalSize = 4;
-		
-		Image->Pal.Palette[0] = Colours[0] * UCHAR_MAX;
-		Image->Pal.Palette[1] = Colours[1] * UCHAR_MAX;
-		Image->Pal.Palette[2] = Colours[2] * UCHAR_MAX;
-		Image->Pal.Palette[3] = Colours[3] * UCHAR_MAX;
+		memset(Image->Data, 0, Image->SizeOfData);
+		return IL_TRUE;
 	}
-	
+
+	NumBytes = Image->Bpp * Image->Bpc;
+	if (NumBytes == 0 || NumBytes > sizeof(Colours)) {
+		ilSetError(IL_INTERNAL_ERROR);
+		return IL_FALSE;
+	}
+	memset(Colours, 0, sizeof(Colours));
+	ilGetClear(Colours, Image->Format, Image->Type);
+	for (i = 0; i + NumBytes <= Image->SizeOfData; i += NumBytes)
+		memcpy(Image->Data + i, Colours, NumBytes);
+
 	return IL_TRUE;
 }
 
-- 
2.43.0


From 07fde8ac4bdf93704c189dadb52452c0e23b100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 039/161] fix: quantizers read out of bounds on small images,
 leave palettes uninitialised, ignore the depth and merge colours that fit;
 WBMP saver swaps black and white

---
 DevIL/src-IL/src/il_neuquant.cpp  |  37 ++++++-----
 DevIL/src-IL/src/il_quantizer.cpp | 100 +++++++++++++++++++++++++-----
 DevIL/src-IL/src/il_wbmp.cpp      |  13 +++-
 3 files changed, 119 insertions(+), 31 deletions(-)

diff --git a/DevIL/src-IL/src/il_neuquant.cpp b/DevIL/src-IL/src/il_neuquant.cpp
index c00f4a0..d6ae649 100644
--- a/DevIL/src-IL/src/il_neuquant.cpp
+++ b/DevIL/src-IL/src/il_neuquant.cpp
@@ -349,6 +349,8 @@ void learn()
 	lim = thepicture + lengthcount;
 	samplepixels = lengthcount/(3*samplefac);
 	delta = samplepixels/ncycles;
+	if (delta == 0)
+		delta = 1;
 	alpha = initalpha;
 	radius = initradius;
 	
@@ -379,7 +381,7 @@ void learn()
 		if (rad) alterneigh(rad,j,b,g,r);   // alter neighbours
 
 		p += step;
-		if (p >= lim) p -= lengthcount;
+		while (p >= lim) p -= lengthcount;  // The image may be smaller than one step.
 	
 		i++;
 		if (i%delta == 0) {	
@@ -396,9 +398,15 @@ void learn()
 }
 
 
+// In il_quantizer.cpp
+void iSetQuantized(ILimage *Image, ILubyte *Data, ILubyte *Palette, ILuint PalSize);
+ILimage *iExactPalette(ILimage *Image, ILubyte *Data, ILuint Red, ILuint Blue, ILuint NumCols);
+
+
 ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
 {
 	ILimage	*TempImage, *NewImage;
+	ILubyte	*NewData, *Palette;
 	ILuint	sample, i, j;
 
 	netsizethink=NumCols;
@@ -412,6 +420,12 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
 	if (TempImage == NULL)
 		return NULL;
 
+	NewImage = iExactPalette(Image, TempImage->Data, 2, 0, NumCols);
+	if (NewImage != NULL) {
+		ilCloseImage(TempImage);
+		return NewImage;
+	}
+
 	initnet(TempImage->Data, TempImage->SizeOfData, sample);
 	learn();
 	unbiasnet();
@@ -427,22 +441,17 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
 		ifree(NewImage);
 		return NULL;
 	}
-	ilCopyImageAttr(NewImage, Image);
-	NewImage->Bpp = 1;
-	NewImage->Bps = Image->Width;
-	NewImage->SizeOfPlane = NewImage->Bps * Image->Height;
-	NewImage->SizeOfData = NewImage->SizeOfPlane;
-	NewImage->Format = IL_COLOUR_INDEX;
-	NewImage->Type = IL_UNSIGNED_BYTE;
-
-	NewImage->Pal.PalSize = netsizethink * 3;
-	NewImage->Pal.PalType = IL_PAL_BGR24;
-	NewImage->Pal.Palette = (ILubyte*)ialloc(256*3);
-	if (NewImage->Pal.Palette == NULL) {
-		ilCloseImage(TempImage);
+	NewData = NewImage->Data;
+	NewImage->Data = NULL;
+	Palette = (ILubyte*)icalloc(256, 3);
+	if (Palette == NULL || !ilCopyImageAttr(NewImage, Image)) {
+		ifree(Palette);
+		ifree(NewData);
 		ilCloseImage(NewImage);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
+	iSetQuantized(NewImage, NewData, Palette, netsizethink * 3);
 
 	for (i = 0, j = 0; i < (unsigned)netsizethink; i++, j += 3) {
 		NewImage->Pal.Palette[j  ] = network[i][0];
diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 0e00572..0241740 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -404,6 +404,73 @@ void Mark(struct Box *cube, int label, unsigned char *tag)
 }
 
 
+// Makes Image, which has the attributes of the image it was quantized from, a palette image.
+void iSetQuantized(ILimage *Image, ILubyte *Data, ILubyte *Palette, ILuint PalSize)
+{
+	Image->Bpp = 1;
+	Image->Bpc = 1;
+	Image->Bps = Image->Width;
+	Image->SizeOfPlane = Image->Bps * Image->Height;
+	Image->SizeOfData = Image->SizeOfPlane * Image->Depth;
+	Image->Format = IL_COLOUR_INDEX;
+	Image->Type = IL_UNSIGNED_BYTE;
+
+	if (Image->Pal.Palette)
+		ifree(Image->Pal.Palette);
+	Image->Pal.Palette = Palette;
+	Image->Pal.PalSize = PalSize;
+	Image->Pal.PalType = IL_PAL_BGR24;
+	Image->Data = Data;
+}
+
+
+// Makes a palette image (BGR24) of Data, which has Channels 8-bit channels per pixel in the order
+//  given by Red and Blue, when it has no more than NumCols colours.  Returns NULL if it has more.
+ILimage *iExactPalette(ILimage *Image, ILubyte *Data, ILuint Red, ILuint Blue, ILuint NumCols)
+{
+	ILimage	*NewImage;
+	ILubyte	*Palette, *NewData;
+	ILuint	NumPix = Image->Width * Image->Height * Image->Depth, Pix, Col, Used = 0;
+
+	if (NumCols > 256)
+		NumCols = 256;
+	NewImage = (ILimage*)icalloc(sizeof(ILimage), 1);
+	NewData = (ILubyte*)ialloc(NumPix);
+	Palette = (ILubyte*)icalloc(256, 3);
+	if (NewImage == NULL || NewData == NULL || Palette == NULL)
+		goto failed;
+
+	for (Pix = 0, Col = 0; Pix < NumPix; Pix++, Data += 3) {
+		if (Used == 0 || Palette[Col * 3] != Data[Blue] || Palette[Col * 3 + 1] != Data[1] || Palette[Col * 3 + 2] != Data[Red]) {
+			for (Col = 0; Col < Used; Col++) {
+				if (Palette[Col * 3] == Data[Blue] && Palette[Col * 3 + 1] == Data[1] && Palette[Col * 3 + 2] == Data[Red])
+					break;
+			}
+			if (Col == Used) {
+				if (Used == NumCols)
+					goto failed;
+				Palette[Col * 3] = Data[Blue];
+				Palette[Col * 3 + 1] = Data[1];
+				Palette[Col * 3 + 2] = Data[Red];
+				Used++;
+			}
+		}
+		NewData[Pix] = (ILubyte)Col;
+	}
+
+	if (!ilCopyImageAttr(NewImage, Image))
+		goto failed;
+	iSetQuantized(NewImage, NewData, Palette, 256 * 3);
+	return NewImage;
+
+failed:
+	ilCloseImage(NewImage);
+	ifree(NewData);
+	ifree(Palette);
+	return NULL;
+}
+
+
 ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 {
 	Box		cube[MAXCOLOR];
@@ -434,6 +501,12 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	if (TempImage == NULL)
 		return NULL;
 
+	NewImage = iExactPalette(Image, TempImage->Data, 0, 2, NumCols);
+	if (NewImage != NULL) {
+		ilCloseImage(TempImage);
+		return NewImage;
+	}
+
 	buffer = Image->Data;
 	WindW = Width = Image->Width;
 	WindH = Height = Image->Height;
@@ -444,10 +517,11 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	//color_num = ImagePrecalculate(Image);
 
 	NewData = (ILubyte*)ialloc(Image->Width * Image->Height * Image->Depth);
-	Palette = (ILubyte*)ialloc(3 * num_alloced_colors);
+	Palette = (ILubyte*)icalloc(num_alloced_colors, 3);
 	if (!NewData || !Palette) {
 		ifree(NewData);
 		ifree(Palette);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
 
@@ -460,6 +534,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		ifree(Ib);
 		ifree(NewData);
 		ifree(Palette);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
 
@@ -593,8 +668,10 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		}
 		ifree(tag);
 		ifree(Qadd);
+		tag = NULL;
+		Qadd = NULL;
 
-		for (k = 0; k < NumCols; k++) {
+		for (k = 0; (ILint)k < K; k++) {
 			Palette[k * 3]     = lut_b[k];
 			Palette[k * 3 + 1] = lut_g[k];
 			Palette[k * 3 + 2] = lut_r[k];
@@ -613,21 +690,13 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	ilCloseImage(TempImage);
 
 	NewImage = (ILimage*)icalloc(sizeof(ILimage), 1);
-	if (NewImage == NULL) {
+	if (NewImage == NULL || !ilCopyImageAttr(NewImage, Image)) {
+		ilCloseImage(NewImage);
+		ifree(NewData);
+		ifree(Palette);
 		return NULL;
 	}
-	ilCopyImageAttr(NewImage, Image);
-	NewImage->Bpp = 1;
-	NewImage->Bps = Image->Width;
-	NewImage->SizeOfPlane = NewImage->Bps * Image->Height;
-	NewImage->SizeOfData = NewImage->SizeOfPlane;
-	NewImage->Format = IL_COLOUR_INDEX;
-	NewImage->Type = IL_UNSIGNED_BYTE;
-
-	NewImage->Pal.Palette = Palette;
-	NewImage->Pal.PalSize = 256 * 3;
-	NewImage->Pal.PalType = IL_PAL_BGR24;
-	NewImage->Data = NewData;
+	iSetQuantized(NewImage, NewData, Palette, 256 * 3);
 
 	return NewImage;
 
@@ -639,5 +708,6 @@ error_label:
 	ifree(Ir);
 	ifree(tag);
 	ifree(Qadd);
+	ilCloseImage(TempImage);
 	return NULL;
 }
diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 2bf07d5..24ffee6 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -223,7 +223,8 @@ ILboolean iSaveWbmpInternal()
 	ILuint	i, j;
 	ILint	k;
 	ILubyte	Val;
-	ILubyte	*TempData;
+	ILubyte	*TempData, *Pal;
+	ILuint	Lum[2], Mid, NumUsed = 0;
 
 	iputc(0);  // First two header values
 	iputc(0);  //  must be 0.
@@ -250,13 +251,21 @@ ILboolean iSaveWbmpInternal()
 		TempData = TempImage->Data;
 	}
 
+	// The brighter one of both colours is white.
+	Pal = TempImage->Pal.Palette;
+	for (i = 0; i < 2; i++)
+		Lum[i] = Pal[i * 3] + 2 * Pal[i * 3 + 1] + Pal[i * 3 + 2];
+	for (i = 0; i < TempImage->SizeOfPlane; i++)
+		NumUsed |= 1 << (TempImage->Data[i] & 1);
+	Mid = (NumUsed == 3) ? (Lum[0] + Lum[1]) / 2 : 2 * UCHAR_MAX;
+
 	for (i = 0; i < TempImage->Height; i++) {
 		for (j = 0; j < TempImage->Width; j += 8) {
 			Val = 0;
 			for (k = 0; k < 8; k++) {
 				if (j + k < TempImage->Width) {
 					//Val |= ((TempData[TempImage->Width * i + j + k] > 0x7F) ? (0x80 >> k) : 0x00);
-					Val |= ((TempData[TempImage->Width * i + j + k] == 1) ? (0x80 >> k) : 0x00);
+					Val |= ((Lum[TempData[TempImage->Width * i + j + k] & 1] > Mid) ? (0x80 >> k) : 0x00);
 				}
 			}
 			iputc(Val);
-- 
2.43.0


From 243017b051dec658fef644a667e27a2d07889825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 040/161] fix: ilCopyPixels and ilSetPixels read and write out
 of bounds, ignore offsets and depth and flip images with IL_ORIGIN_SET

---
 DevIL/src-IL/src/il_manip.cpp | 464 ++++++++--------------------------
 1 file changed, 107 insertions(+), 357 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 79acc99..74a28ed 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -377,425 +377,175 @@ ILboolean ILAPIENTRY iMirror() {
 
 
 // Should we add type to the parameter list?
-// Copies a 1d block of pixels to the buffer pointed to by Data.
-ILboolean ilCopyPixels1D(ILuint XOff, ILuint Width, void *Data)
+// The part of a block of pixels that lies inside of the current image.
+typedef struct PIXBLOCK
 {
-	ILuint	x, c, NewBps, NewOff, PixBpp;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
+	ILuint		X, Y, Z;			// Where it starts in the image
+	ILuint		SkipX, SkipY, SkipZ;	// Where it starts in the block
+	ILuint		Width, Height, Depth;
+	ILboolean	Flipped;			// Rows are counted from the other end of the image.
+} PIXBLOCK;
 
-	if (iCurImage->Width < XOff + Width) {
-		NewBps = (iCurImage->Width - XOff) * PixBpp;
-	}
-	else {
-		NewBps = Width * PixBpp;
-	}
-	NewOff = XOff * PixBpp;
 
-	for (x = 0; x < NewBps; x += PixBpp) {
-		for (c = 0; c < PixBpp; c++) {
-			Temp[x + c] = TempData[(x + NewOff) + c];
-		}
-	}
+// Clips one direction of a block, returns the number of pixels that are left.
+static ILuint iClipPixels(ILint64 Off, ILuint Size, ILuint ImageSize, ILuint *Start, ILuint *Skip)
+{
+	ILint64 First = Off, Last = Off + Size;
 
-	if (TempData != iCurImage->Data)
-		ifree(TempData);
+	if (First < 0)
+		First = 0;
+	if (Last > ImageSize)
+		Last = ImageSize;
+	if (Last <= First)
+		return 0;
 
-	return IL_TRUE;
+	*Start = (ILuint)First;
+	*Skip = (ILuint)(First - Off);
+	return (ILuint)(Last - First);
 }
 
 
-// Copies a 2d block of pixels to the buffer pointed to by Data.
-ILboolean ilCopyPixels2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height, void *Data)
+// Returns IL_FALSE if no pixel of the block lies inside of the image.
+static ILboolean iClipBlock(PIXBLOCK *Block, ILint64 XOff, ILint64 YOff, ILint64 ZOff, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILuint	x, y, c, NewBps, DataBps, NewXOff, NewHeight, PixBpp;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (iCurImage->Width < XOff + Width)
-		NewBps = (iCurImage->Width - XOff) * PixBpp;
-	else
-		NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewHeight = iCurImage->Height - YOff;
-	else
-		NewHeight = Height;
-
-	DataBps = Width * PixBpp;
-	NewXOff = XOff * PixBpp;
-
-	for (y = 0; y < NewHeight; y++) {
-		for (x = 0; x < NewBps; x += PixBpp) {
-			for (c = 0; c < PixBpp; c++) {
-				Temp[y * DataBps + x + c] = 
-					TempData[(y + YOff) * iCurImage->Bps + x + NewXOff + c];
-			}
-		}
-	}
+	Block->Width = iClipPixels(XOff, Width, iCurImage->Width, &Block->X, &Block->SkipX);
+	Block->Height = iClipPixels(YOff, Height, iCurImage->Height, &Block->Y, &Block->SkipY);
+	Block->Depth = iClipPixels(ZOff, Depth, iCurImage->Depth, &Block->Z, &Block->SkipZ);
+	Block->Flipped = ilIsEnabled(IL_ORIGIN_SET) && (ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin;
 
-	if (TempData != iCurImage->Data)
-		ifree(TempData);
-
-	return IL_TRUE;
+	return Block->Width && Block->Height && Block->Depth;
 }
 
 
-// Copies a 3d block of pixels to the buffer pointed to by Data.
-ILboolean ilCopyPixels3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth, void *Data)
+// Returns the pixels of one row of the block in the image.
+static ILubyte *iBlockRow(PIXBLOCK *Block, ILuint y, ILuint z)
 {
-	ILuint	x, y, z, c, NewBps, DataBps, NewSizePlane, NewH, NewD, NewXOff, PixBpp;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (iCurImage->Width < XOff + Width)
-		NewBps = (iCurImage->Width - XOff) * PixBpp;
-	else
-		NewBps = Width * PixBpp;
+	ILuint Row = Block->Y + y;
 
-	if (iCurImage->Height < YOff + Height)
-		NewH = iCurImage->Height - YOff;
-	else
-		NewH = Height;
-
-	if (iCurImage->Depth < ZOff + Depth)
-		NewD = iCurImage->Depth - ZOff;
-	else
-		NewD = Depth;
-
-	DataBps = Width * PixBpp;
-	NewSizePlane = NewBps * NewH;
-
-	NewXOff = XOff * PixBpp;
-
-	for (z = 0; z < NewD; z++) {
-		for (y = 0; y < NewH; y++) {
-			for (x = 0; x < NewBps; x += PixBpp) {
-				for (c = 0; c < PixBpp; c++) {
-					Temp[z * NewSizePlane + y * DataBps + x + c] = 
-						TempData[(z + ZOff) * iCurImage->SizeOfPlane + (y + YOff) * iCurImage->Bps + x + NewXOff + c];
-						//TempData[(z + ZOff) * iCurImage->SizeOfPlane + (y + YOff) * iCurImage->Bps + (x + XOff) * iCurImage->Bpp + c];
-				}
-			}
-		}
-	}
+	if (Block->Flipped)
+		Row = iCurImage->Height - 1 - Row;
+	return iCurImage->Data + (size_t)(Block->Z + z) * iCurImage->SizeOfPlane
+		+ (size_t)Row * iCurImage->Bps + (size_t)Block->X * iCurImage->Bpp * iCurImage->Bpc;
+}
 
-	if (TempData != iCurImage->Data)
-		ifree(TempData);
 
-	return IL_TRUE;
+// Returns the offset of one row of the block in the buffer of the caller.
+static size_t iUserRow(PIXBLOCK *Block, ILuint y, ILuint z, ILuint Width, ILuint Height)
+{
+	return ((size_t)(Block->SkipZ + z) * Height + Block->SkipY + y) * Width + Block->SkipX;
 }
 
 
 ILuint ILAPIENTRY ilCopyPixels(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth, ILenum Format, ILenum Type, void *Data)
 {
-	void	*Converted = NULL;
-	ILubyte	*TempBuff = NULL;
-	ILuint	SrcSize, DestSize;
+	PIXBLOCK	Block;
+	ILubyte		*Buffer, *Converted, *Temp;
+	ILuint		y, z, PixSize, SrcRow, DestRow, DestSize;
+	ILuint64	Size;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return 0;
 	}
-	DestSize = Width * Height * Depth * ilGetBppFormat(Format) * ilGetBpcType(Type);
-	if (DestSize == 0) {
-		return DestSize;
+	PixSize = ilGetBppFormat(Format) * ilGetBpcType(Type);
+	if (PixSize == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return 0;
 	}
-	if (Data == NULL || Format == IL_COLOUR_INDEX) {
+	if (Width == 0 || Height == 0 || Depth == 0)
+		return 0;
+	Size = (ILuint64)Width * Height;
+	if (Size <= UINT_MAX)
+		Size *= Depth;
+	if (Size <= UINT_MAX)
+		Size *= PixSize;
+	if (Data == NULL || Size > UINT_MAX || (Format == IL_COLOUR_INDEX && iCurImage->Format != IL_COLOUR_INDEX)) {
 		ilSetError(IL_INVALID_PARAM);
 		return 0;
 	}
-	SrcSize = Width * Height * Depth * iCurImage->Bpp * iCurImage->Bpc;
+	DestSize = (ILuint)Size;
 
-	if (Format == iCurImage->Format && Type == iCurImage->Type) {
-		TempBuff = (ILubyte*)Data;
-	}
-	else {
-		TempBuff = (ILubyte*)ialloc(SrcSize);
-		if (TempBuff == NULL) {
-			return 0;
-		}
-	}
+	if (!iClipBlock(&Block, XOff, YOff, ZOff, Width, Height, Depth))
+		return DestSize;  // All of it lies outside of the image.
 
-	if (YOff + Height <= 1) {
-		if (!ilCopyPixels1D(XOff, Width, TempBuff)) {
-			goto failed;
-		}
-	}
-	else if (ZOff + Depth <= 1) {
-		if (!ilCopyPixels2D(XOff, YOff, Width, Height, TempBuff)) {
-			goto failed;
-		}
-	}
-	else {
-		if (!ilCopyPixels3D(XOff, YOff, ZOff, Width, Height, Depth, TempBuff)) {
-			goto failed;
-		}
-	}
+	SrcRow = Block.Width * iCurImage->Bpp * iCurImage->Bpc;
+	DestRow = Block.Width * PixSize;
 
 	if (Format == iCurImage->Format && Type == iCurImage->Type) {
+		for (z = 0; z < Block.Depth; z++) {
+			for (y = 0; y < Block.Height; y++)
+				memcpy((ILubyte*)Data + iUserRow(&Block, y, z, Width, Height) * PixSize, iBlockRow(&Block, y, z), DestRow);
+		}
 		return DestSize;
 	}
 
-	Converted = ilConvertBuffer(SrcSize, iCurImage->Format, Format, iCurImage->Type, Type, &iCurImage->Pal, TempBuff);
+	Buffer = (ILubyte*)ialloc((ILsizei)SrcRow * Block.Height * Block.Depth);
+	if (Buffer == NULL)
+		return 0;
+	for (z = 0, Temp = Buffer; z < Block.Depth; z++) {
+		for (y = 0; y < Block.Height; y++, Temp += SrcRow)
+			memcpy(Temp, iBlockRow(&Block, y, z), SrcRow);
+	}
+	Converted = (ILubyte*)ilConvertBuffer(SrcRow * Block.Height * Block.Depth, iCurImage->Format, Format, iCurImage->Type, Type, &iCurImage->Pal, Buffer);
+	ifree(Buffer);
 	if (Converted == NULL)
-		goto failed;
-
-	memcpy(Data, Converted, DestSize);
-
+		return 0;
+	for (z = 0, Temp = Converted; z < Block.Depth; z++) {
+		for (y = 0; y < Block.Height; y++, Temp += DestRow)
+			memcpy((ILubyte*)Data + iUserRow(&Block, y, z, Width, Height) * PixSize, Temp, DestRow);
+	}
 	ifree(Converted);
-	if (TempBuff != Data)
-		ifree(TempBuff);
 
 	return DestSize;
-
-failed:
-	if (TempBuff != Data)
-		ifree(TempBuff);
-	ifree(Converted);
-	return 0;
-}
-
-
-ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
-{
-	ILuint	c, SkipX = 0, PixBpp;
-	ILint	x, NewWidth;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (XOff < 0) {
-		SkipX = abs(XOff);
-		XOff = 0;
-	}
-
-	if (iCurImage->Width < XOff + Width) {
-		NewWidth = iCurImage->Width - XOff;
-	}
-	else {
-		NewWidth = Width;
-	}
-
-	NewWidth -= SkipX;
-
-	for (x = 0; x < NewWidth; x++) {
-		for (c = 0; c < PixBpp; c++) {
-			TempData[(x + XOff) * PixBpp + c] = Temp[(x + SkipX) * PixBpp + c];
-		}
-	}
-
-	if (TempData != iCurImage->Data) {
-		ifree(iCurImage->Data);
-		iCurImage->Data = TempData;
-	}
-
-	return IL_TRUE;
-}
-
-
-ILboolean ilSetPixels2D(ILint XOff, ILint YOff, ILuint Width, ILuint Height, void *Data)
-{
-	ILuint	c, SkipX = 0, SkipY = 0, NewBps, PixBpp;
-	ILint	x, y, NewWidth, NewHeight;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (XOff < 0) {
-		SkipX = abs(XOff);
-		XOff = 0;
-	}
-	if (YOff < 0) {
-		SkipY = abs(YOff);
-		YOff = 0;
-	}
-
-	if (iCurImage->Width < XOff + Width)
-		NewWidth = iCurImage->Width - XOff;
-	else
-		NewWidth = Width;
-	NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewHeight = iCurImage->Height - YOff;
-	else
-		NewHeight = Height;
-
-	NewWidth -= SkipX;
-	NewHeight -= SkipY;
-
-	for (y = 0; y < NewHeight; y++) {
-		for (x = 0; x < NewWidth; x++) {
-			for (c = 0; c < PixBpp; c++) {
-				TempData[(y + YOff) * iCurImage->Bps + (x + XOff) * PixBpp + c] =
-					Temp[(y + SkipY) * NewBps + (x + SkipX) * PixBpp + c];					
-			}
-		}
-	}
-
-	if (TempData != iCurImage->Data) {
-		ifree(iCurImage->Data);
-		iCurImage->Data = TempData;
-	}
-
-	return IL_TRUE;
-}
-
-
-ILboolean ilSetPixels3D(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint Height, ILuint Depth, void *Data)
-{
-	ILuint	SkipX = 0, SkipY = 0, SkipZ = 0, c, NewBps, NewSizePlane, PixBpp;
-	ILint	x, y, z, NewW, NewH, NewD;
-	ILubyte	*Temp = (ILubyte*)Data, *TempData = iCurImage->Data;
-
-	if (ilIsEnabled(IL_ORIGIN_SET)) {
-		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
-			TempData = iGetFlipped(iCurImage);
-			if (TempData == NULL)
-				return IL_FALSE;
-		}
-	}
-
-	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
-
-	if (XOff < 0) {
-		SkipX = abs(XOff);
-		XOff = 0;
-	}
-	if (YOff < 0) {
-		SkipY = abs(YOff);
-		YOff = 0;
-	}
-	if (ZOff < 0) {
-		SkipZ = abs(ZOff);
-		ZOff = 0;
-	}
-
-	if (iCurImage->Width < XOff + Width)
-		NewW = iCurImage->Width - XOff;
-	else
-		NewW = Width;
-	NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewH = iCurImage->Height - YOff;
-	else
-		NewH = Height;
-
-	if (iCurImage->Depth < ZOff + Depth)
-		NewD = iCurImage->Depth - ZOff;
-	else
-		NewD = Depth;
-	NewSizePlane = NewBps * Height;
-
-	NewW -= SkipX;
-	NewH -= SkipY;
-	NewD -= SkipZ;
-
-	for (z = 0; z < NewD; z++) {
-		for (y = 0; y < NewH; y++) {
-			for (x = 0; x < NewW; x++) {
-				for (c = 0; c < PixBpp; c++) {
-					TempData[(z + ZOff) * iCurImage->SizeOfPlane + (y + YOff) * iCurImage->Bps + (x + XOff) * PixBpp + c] =
-						Temp[(z + SkipZ) * NewSizePlane + (y + SkipY) * NewBps + (x + SkipX) * PixBpp + c];
-				}
-			}
-		}
-	}
-
-	if (TempData != iCurImage->Data) {
-		ifree(iCurImage->Data);
-		iCurImage->Data = TempData;
-	}
-
-	return IL_TRUE;
 }
 
 
 void ILAPIENTRY ilSetPixels(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint Height, ILuint Depth, ILenum Format, ILenum Type, void *Data)
 {
-	void *Converted;
+	PIXBLOCK	Block;
+	ILubyte		*Buffer, *Converted, *Temp;
+	ILuint		y, z, PixSize, SrcRow, DestRow;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return;
 	}
-	if (Data == NULL) {
+	PixSize = ilGetBppFormat(Format) * ilGetBpcType(Type);
+	if (Data == NULL || PixSize == 0 || (Format == IL_COLOUR_INDEX) != (iCurImage->Format == IL_COLOUR_INDEX)) {
 		ilSetError(IL_INVALID_PARAM);
 		return;
 	}
 
-	if (Format == iCurImage->Format && Type == iCurImage->Type) {
-		Converted = (void*)Data;
-	}
-	else {
-		Converted = ilConvertBuffer(Width * Height * Depth * ilGetBppFormat(Format) * ilGetBpcType(Type), Format, iCurImage->Format, Type, iCurImage->Type, NULL, Data);
-		if (!Converted)
-			return;
-	}
+	if (!iClipBlock(&Block, XOff, YOff, ZOff, Width, Height, Depth))
+		return;  // All of it lies outside of the image.
 
-	if (YOff + Height <= 1) {
-		ilSetPixels1D(XOff, Width, Converted);
-	}
-	else if (ZOff + Depth <= 1) {
-		ilSetPixels2D(XOff, YOff, Width, Height, Converted);
-	}
-	else {
-		ilSetPixels3D(XOff, YOff, ZOff, Width, Height, Depth, Converted);
-	}
+	SrcRow = Block.Width * PixSize;
+	DestRow = Block.Width * iCurImage->Bpp * iCurImage->Bpc;
 
 	if (Format == iCurImage->Format && Type == iCurImage->Type) {
+		for (z = 0; z < Block.Depth; z++) {
+			for (y = 0; y < Block.Height; y++)
+				memcpy(iBlockRow(&Block, y, z), (ILubyte*)Data + iUserRow(&Block, y, z, Width, Height) * PixSize, DestRow);
+		}
 		return;
 	}
 
-	if (Converted != Data)
-		ifree(Converted);
-
-	return;
+	Buffer = (ILubyte*)ialloc((ILsizei)SrcRow * Block.Height * Block.Depth);
+	if (Buffer == NULL)
+		return;
+	for (z = 0, Temp = Buffer; z < Block.Depth; z++) {
+		for (y = 0; y < Block.Height; y++, Temp += SrcRow)
+			memcpy(Temp, (ILubyte*)Data + iUserRow(&Block, y, z, Width, Height) * PixSize, SrcRow);
+	}
+	Converted = (ILubyte*)ilConvertBuffer(SrcRow * Block.Height * Block.Depth, Format, iCurImage->Format, Type, iCurImage->Type, NULL, Buffer);
+	ifree(Buffer);
+	if (Converted == NULL)
+		return;
+	for (z = 0, Temp = Converted; z < Block.Depth; z++) {
+		for (y = 0; y < Block.Height; y++, Temp += DestRow)
+			memcpy(iBlockRow(&Block, y, z), Temp, DestRow);
+	}
+	ifree(Converted);
 }
 
 
-- 
2.43.0


From 21e4e326ca8f2c98fe56002dbedcbd6ddc5a7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 041/161] fix: run packets of the RLE compressor wrote one byte
 too many (IL_TGA_RLE, IL_SGI_RLE)

---
 DevIL/src-IL/src/il_rle.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_rle.cpp b/DevIL/src-IL/src/il_rle.cpp
index c572631..0a71aff 100644
--- a/DevIL/src-IL/src/il_rle.cpp
+++ b/DevIL/src-IL/src/il_rle.cpp
@@ -101,7 +101,6 @@ ILboolean ilRleCompressLine(ILubyte *p, ILuint n, ILubyte bpp,
 			n -= SameCount;
 			RLEBufSize += bpp + 1;
 			p += (SameCount - 1) * bpp;
-			*q++ = *p++;
 			switch(bpp) {
 				case 4:	*q++ = *p++;
 				case 3: *q++ = *p++;
@@ -145,8 +144,8 @@ ILuint ilRleCompress(ILubyte *Data, ILuint Width, ILuint Height, ILuint Depth, I
 	}
 	
 	if( CompressMode == IL_BMPCOMP ) { // add end of image
-		*(Data+DestW) = 0x00; DestW++;
-		*(Data+DestW) = 0x01; DestW++;
+		*(Dest+DestW) = 0x00; DestW++;
+		*(Dest+DestW) = 0x01; DestW++;
 	}
 
 	return DestW;
-- 
2.43.0


From d9aff04718634ad267072e5b3cc7b5e280652114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 042/161] fix: TGA loader: truncated files, colour map offset
 and 16-bit colour maps, unsupported depths

---
 DevIL/src-IL/src/il_targa.cpp | 59 +++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 46202db..dd1704d 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -218,6 +218,8 @@ ILboolean iLoadTargaInternal()
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
+	if (!bTarga)
+		return IL_FALSE;
 	
 	// @JASON Extra Code to manipulate the image depending on
 	// the Image Descriptor's origin bits.
@@ -254,23 +256,25 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 	ILuint		i;
 	ILushort	Pixel;
 	
+	ILuint		First = (ILushort)Header->FirstEntry, NumCols = (ILushort)Header->ColMapLen, EntSize;
+	
 	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
 		return IL_FALSE;
 	
-	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), 0, IL_UNSIGNED_BYTE, NULL)) {
+	// Only 8-bit indices are supported.
+	if (Header->Bpp != 8 || !Header->ColMapPresent || NumCols == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	if (!ilTexImage(Header->Width, Header->Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize)
-		ifree(iCurImage->Pal.Palette);
-	
-	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalSize = Header->ColMapLen * (Header->ColMapEntSize >> 3);
 	
 	switch (Header->ColMapEntSize)
 	{
+		case 15:
 		case 16:
 			iCurImage->Pal.PalType = IL_PAL_BGRA32;
-			iCurImage->Pal.PalSize = Header->ColMapLen * 4;
 			break;
 		case 24:
 			iCurImage->Pal.PalType = IL_PAL_BGR24;
@@ -284,29 +288,32 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 			return IL_FALSE;
 	}
 	
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
+	// The entries in the file are those from FirstEntry on.
+	EntSize = ilGetBppPal(iCurImage->Pal.PalType);
+	iCurImage->Pal.Palette = (ILubyte*)icalloc(First + NumCols, EntSize);
 	if (iCurImage->Pal.Palette == NULL) {
 		return IL_FALSE;
 	}
+	iCurImage->Pal.PalSize = (First + NumCols) * EntSize;
 	
-	// Do we need to do something with FirstEntry?	Like maybe:
-	//	iread(Image->Pal + Targa->FirstEntry, 1, Image->Pal.PalSize);  ??
-	if (Header->ColMapEntSize != 16)
+	if (Header->ColMapEntSize > 16)
 	{
-		if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
+		if (iread(iCurImage->Pal.Palette + First * EntSize, EntSize, NumCols) != NumCols)
 			return IL_FALSE;
 	}
 	else {
 		// 16 bit palette, so we have to break it up.
-		for (i = 0; i < iCurImage->Pal.PalSize; i += 4)
+		ILubyte *Entry = iCurImage->Pal.Palette + First * 4, Colour[2];
+		for (i = 0; i < NumCols; i++, Entry += 4)
 		{
-			Pixel = GetBigUShort();
-			if (ieof())
+			if (iread(Colour, 1, 2) != 2)
 				return IL_FALSE;
-			iCurImage->Pal.Palette[3] = (Pixel & 0x8000) >> 12;
-			iCurImage->Pal.Palette[0] = (Pixel & 0xFC00) >> 7;
-			iCurImage->Pal.Palette[1] = (Pixel & 0x03E0) >> 2;
-			iCurImage->Pal.Palette[2] = (Pixel & 0x001F) << 3;
+			Pixel = Colour[0] | (Colour[1] << 8);
+			Entry[0] = (Pixel & 0x001F) << 3;
+			Entry[1] = (Pixel & 0x03E0) >> 2;
+			Entry[2] = (Pixel & 0x7C00) >> 7;
+			// Without attribute bits in the descriptor the colours are opaque.
+			Entry[3] = ((Header->ImageDesc & 0x0F) == 0 || (Pixel & 0x8000)) ? 0xFF : 0x00;
 		}
 	}
 	
@@ -336,6 +343,8 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 	
 	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
 		return IL_FALSE;
+	if (Header->ColMapPresent)  // A colour map may be present, but is not used.
+		iseek((ILushort)Header->ColMapLen * ((Header->ColMapEntSize + 7) / 8), IL_SEEK_CUR);
 	
 	/*if (Header->Bpp == 16)
 		Bpp = 3;
@@ -349,7 +358,7 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 	switch (iCurImage->Bpp)
 	{
 		case 1:
-			iCurImage->Format = IL_COLOUR_INDEX;  // wtf?  How is this possible?
+			iCurImage->Format = IL_LUMINANCE;  // wtf?  How is this possible?
 			break;
 		case 2:  // 16-bit is not supported directly!
 				 //iCurImage->Format = IL_RGB5_A1;
@@ -415,10 +424,14 @@ ILboolean iReadBwTga(TARGAHEAD *Header)
 	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
 		return IL_FALSE;
 	
-	// We assume that no palette is present, but it's possible...
-	//	Should we mess with it or not?
+	if (Header->ColMapPresent)  // A colour map may be present, but is not used.
+		iseek((ILushort)Header->ColMapLen * ((Header->ColMapEntSize + 7) / 8), IL_SEEK_CUR);
+	if (Header->Bpp > 16) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 	
-	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), Header->Bpp == 16 ? IL_LUMINANCE_ALPHA : IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	
-- 
2.43.0


From 086e64f30b7bf681b440ca43f4b4de1387b3357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 043/161] fix: TGA saver: RGB images were changed while saving,
 refused saves wrote a header, leaks, palette alpha, 16-bit sizes; save sizes
 are reported only for saves that work

---
 DevIL/src-IL/src/il_size.cpp  |  37 +++----
 DevIL/src-IL/src/il_targa.cpp | 186 +++++++++++-----------------------
 2 files changed, 78 insertions(+), 145 deletions(-)

diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 3cc8857..ca622a5 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -13,7 +13,6 @@
 #include "il_internal.h"
 
 
-ILuint iTargaSize(void);
 
 
 ILuint CurPos;  // Fake "file" pointer.
@@ -79,6 +78,8 @@ ILint ILAPIENTRY iSizeWrite(const void *Buffer, ILuint Size, ILuint Number)
 //  A return value of 0 is an error.
 ILuint ilDetermineSize(ILenum Type)
 {
+	ILuint Size = 0;
+
 	MaxPos = CurPos = 0;
 	iSetOutputFake();  // Sets iputc, iwrite, etc. to functions above.
 
@@ -86,92 +87,91 @@ ILuint ilDetermineSize(ILenum Type)
 	{
 		#ifndef IL_NO_BMP
 		case IL_BMP:
-			ilSaveBmpL(NULL, 0);
+			Size = ilSaveBmpL(NULL, 0);
 			break;
 		#endif//IL_NO_BMP
 
 		#ifndef IL_NO_DDS
 		case IL_DDS:
-			ilSaveDdsL(NULL, 0);
+			Size = ilSaveDdsL(NULL, 0);
 			break;
 		#endif//IL_NO_DDS
 
 		#ifndef IL_NO_EXR
 		case IL_EXR:
-			ilSaveExrL(NULL, 0);
+			Size = ilSaveExrL(NULL, 0);
 			break;
 		#endif//IL_NO_EXR
 
 		#ifndef IL_NO_HDR
 		case IL_HDR:
-			ilSaveHdrL(NULL, 0);
+			Size = ilSaveHdrL(NULL, 0);
 			break;
 		#endif//IL_NO_HDR
 
 		#ifndef IL_NO_JP2
 		case IL_JP2:
-			ilSaveJp2L(NULL, 0);
+			Size = ilSaveJp2L(NULL, 0);
 			break;
 		#endif//IL_NO_JP2
 
 		#ifndef IL_NO_JPG
 		case IL_JPG:
-			ilSaveJpegL(NULL, 0);
+			Size = ilSaveJpegL(NULL, 0);
 			break;
 		#endif//IL_NO_JPG
 
 		#ifndef IL_NO_PCX
 		case IL_PCX:
-			ilSavePcxL(NULL, 0);
+			Size = ilSavePcxL(NULL, 0);
 			break;
 		#endif//IL_NO_PCX
 
 		#ifndef IL_NO_PNG
 		case IL_PNG:
-			ilSavePngL(NULL, 0);
+			Size = ilSavePngL(NULL, 0);
 			break;
 		#endif//IL_NO_PNG
 
 		#ifndef IL_NO_PNM
 		case IL_PNM:
-			ilSavePnmL(NULL, 0);
+			Size = ilSavePnmL(NULL, 0);
 			break;
 		#endif//IL_NO_PNM
 
 		#ifndef IL_NO_PSD
 		case IL_PSD:
-			ilSavePsdL(NULL, 0);
+			Size = ilSavePsdL(NULL, 0);
 			break;
 		#endif//IL_NO_PSD
 
 		#ifndef IL_NO_RAW
 		case IL_RAW:
-			ilSaveRawL(NULL, 0);
+			Size = ilSaveRawL(NULL, 0);
 			break;
 		#endif//IL_NO_RAW
 
 		#ifndef IL_NO_SGI
 		case IL_SGI:
-			ilSaveSgiL(NULL, 0);
+			Size = ilSaveSgiL(NULL, 0);
 			break;
 		#endif//IL_NO_SGI
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			//ilSaveTargaL(NULL, 0);
-			return iTargaSize();
+			Size = ilSaveTargaL(NULL, 0);
 			break;
 		#endif//IL_NO_TGA
 
 		#ifndef IL_NO_TIF
 		case IL_TIF:
-			ilSaveTiffL(NULL, 0);
+			Size = ilSaveTiffL(NULL, 0);
 			break;
 		#endif//IL_NO_TIF
 
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
-			ilSaveWbmpL(NULL, 0);
+			Size = ilSaveWbmpL(NULL, 0);
 			break;
 		#endif//IL_NO_WBMP
 
@@ -181,5 +181,6 @@ ILuint ilDetermineSize(ILenum Type)
 			return 0;
 	}
 
-	return MaxPos;
+	// The size of what was written, if it could be written at all.
+	return Size ? MaxPos : 0;
 }
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index dd1704d..134736d 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -608,11 +608,11 @@ ILboolean iSaveTargaInternal()
 	const char	*ID = iGetString(IL_TGA_ID_STRING);
 	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
 	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
-	ILubyte 	IDLen = 0, UsePal, Type, PalEntSize;
+	ILubyte 	IDLen = 0, UsePal, Type = 0, PalEntSize;
 	ILshort 	ColMapStart = 0, PalSize;
 	ILubyte		Temp;
-	ILenum		Format;
-	ILboolean	Compress;
+	ILenum		Format, PalFormat;
+	ILboolean	Compress, bRet = IL_FALSE;
 	ILuint		RleLen;
 	ILubyte 	*Rle;
 	ILpal		*TempPal = NULL;
@@ -621,7 +621,7 @@ ILboolean iSaveTargaInternal()
 	char		*Footer = (char*)"TRUEVISION-XFILE.\0";
 	char		*idString = (char*)"Developer's Image Library (DevIL)";
 	ILuint		Day, Month, Year, Hour, Minute, Second;
-	char		*TempData;
+	char		*TempData = NULL;
 	ILshort		zero_short = 0;
 
 	if (iCurImage == NULL) {
@@ -637,14 +637,6 @@ ILboolean iSaveTargaInternal()
 	if (ID)
 		IDLen = (ILubyte)ilCharStrLen(ID);
 	
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
-		UsePal = IL_TRUE;
-	else
-		UsePal = IL_FALSE;
-	
-	iwrite(&IDLen, sizeof(ILubyte), 1);
-	iwrite(&UsePal, sizeof(ILubyte), 1);
-
 	Format = iCurImage->Format;
 	switch (Format) {
 		case IL_COLOUR_INDEX:
@@ -653,6 +645,9 @@ ILboolean iSaveTargaInternal()
 			else
 				Type = 1;
 			break;
+		case IL_RGB:
+			Format = IL_BGR;
+			// Fall through
 		case IL_BGR:
 		case IL_BGRA:
 			if (Compress)
@@ -660,9 +655,8 @@ ILboolean iSaveTargaInternal()
 			else
 				Type = 2;
 			break;
-		case IL_RGB:
 		case IL_RGBA:
-			ilSwapColours();
+			Format = IL_BGRA;
 			if (Compress)
 				Type = 10;
 			else
@@ -677,74 +671,63 @@ ILboolean iSaveTargaInternal()
 		default:
 			// Should convert the types here...
 			ilSetError(IL_INVALID_VALUE);
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
-			return IL_FALSE;
+			goto cleanup;
+	}
+	if (iCurImage->Width > 0xFFFF || iCurImage->Height > 0xFFFF) {
+		ilSetError(IL_BAD_DIMENSIONS);
+		goto cleanup;
 	}
 	
-	iwrite(&Type, sizeof(ILubyte), 1);
-	SaveLittleShort(ColMapStart);
-	
-	switch (iCurImage->Pal.PalType)
-	{
-		case IL_PAL_NONE:
-			PalSize = 0;
-			PalEntSize = 0;
-			break;
-		case IL_PAL_BGR24:
-			PalSize = (ILshort)(iCurImage->Pal.PalSize / 3);
-			PalEntSize = 24;
+	UsePal = (Format == IL_COLOUR_INDEX);
+	PalSize = 0;
+	PalEntSize = 0;
+	if (UsePal) {
+		if (iCurImage->Pal.Palette == NULL || iCurImage->Pal.PalSize == 0 || iCurImage->Pal.PalType == IL_PAL_NONE) {
+			ilSetError(IL_INVALID_VALUE);
+			goto cleanup;
+		}
+		// Palettes with alpha keep it.
+		PalFormat = (iCurImage->Pal.PalType == IL_PAL_RGBA32 || iCurImage->Pal.PalType == IL_PAL_BGRA32) ? IL_PAL_BGRA32 : IL_PAL_BGR24;
+		if (iCurImage->Pal.PalType == PalFormat)
 			TempPal = &iCurImage->Pal;
-			break;
-			
-		case IL_PAL_RGB24:
-		case IL_PAL_RGB32:
-		case IL_PAL_RGBA32:
-		case IL_PAL_BGR32:
-		case IL_PAL_BGRA32:
-			TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_BGR24);
+		else {
+			TempPal = iConvertPal(&iCurImage->Pal, PalFormat);
 			if (TempPal == NULL)
-				return IL_FALSE;
-				PalSize = (ILshort)(TempPal->PalSize / 3);
-			PalEntSize = 24;
-			break;
-		default:
-			ilSetError(IL_INVALID_VALUE);
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
-			PalSize = 0;
-			PalEntSize = 0;
-			return IL_FALSE;
-	}
-	SaveLittleShort(PalSize);
-	iwrite(&PalEntSize, sizeof(ILubyte), 1);
-	
-	if (iCurImage->Bpc > 1) {
-		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL) {
-			ifree(ID);
-			ifree(AuthName);
-			ifree(AuthComment);
-			return IL_FALSE;
+				goto cleanup;
 		}
+		PalEntSize = ilGetBppPal(PalFormat) * 8;
+		PalSize = (ILshort)(TempPal->PalSize / ilGetBppPal(PalFormat));
 	}
-	else {
+	
+	if (iCurImage->Type != IL_UNSIGNED_BYTE && iCurImage->Type != IL_BYTE)
+		TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
+	else if (iCurImage->Format != Format)
+		TempImage = iConvertImage(iCurImage, Format, iCurImage->Type);
+	else
 		TempImage = iCurImage;
-	}
+	if (TempImage == NULL)
+		goto cleanup;
 	
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = (char*)iGetFlipped(TempImage);
+		if (TempData == NULL)
+			goto cleanup;
 	}
 	else
 		TempData = (char*)TempImage->Data;
 	
+	iwrite(&IDLen, sizeof(ILubyte), 1);
+	iwrite(&UsePal, sizeof(ILubyte), 1);
+	iwrite(&Type, sizeof(ILubyte), 1);
+	SaveLittleShort(ColMapStart);
+	SaveLittleShort(PalSize);
+	iwrite(&PalEntSize, sizeof(ILubyte), 1);
+	
 	// Write out the origin stuff.
 	iwrite(&zero_short, sizeof(ILshort), 1);
 	iwrite(&zero_short, sizeof(ILshort), 1);
 	
-	Temp = iCurImage->Bpp << 3;  // Changes to bits per pixel 
+	Temp = TempImage->Bpp << 3;  // Changes to bits per pixel 
 	SaveLittleUShort((ILushort)iCurImage->Width);
 	SaveLittleUShort((ILushort)iCurImage->Height);
 	iwrite(&Temp, sizeof(ILubyte), 1);
@@ -753,13 +736,11 @@ ILboolean iSaveTargaInternal()
 	// It's actually the 'Image Descriptor Byte'
 	// from wiki: Image descriptor (1 byte): bits 3-0 give the alpha channel depth, bits 5-4 give direction
 	Temp = 0;
-	if (iCurImage->Bpp > 3)
+	if (TempImage->Bpp > 3)
 		Temp = 8;
-	if (TempImage->Origin == IL_ORIGIN_UPPER_LEFT)
-		Temp |= 0x20; //set 5th bit
+	// The rows are always written from the bottom up.
 	iwrite(&Temp, sizeof(ILubyte), 1);
 	iwrite(ID, sizeof(char), IDLen);
-	ifree(ID);
 	//iwrite(ID, sizeof(ILbyte), IDLen - sizeof(ILuint));
 	//iwrite(&iCurImage->Depth, sizeof(ILuint), 1);
 	
@@ -772,11 +753,8 @@ ILboolean iSaveTargaInternal()
 		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfData);
 	else {
 		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
-		if (Rle == NULL) {
-			ifree(AuthName);
-			ifree(AuthComment);
-			return IL_FALSE;
-		}
+		if (Rle == NULL)
+			goto cleanup;
 		RleLen = ilRleCompress((unsigned char*)TempData, TempImage->Width, TempImage->Height,
 		                       TempImage->Depth, TempImage->Bpp, Rle, IL_TGACOMP, NULL);
 		
@@ -791,8 +769,6 @@ ILboolean iSaveTargaInternal()
 	ipad(41 - ilCharStrLen(AuthName));
 	iwrite(AuthComment, 1, ilCharStrLen(AuthComment));
 	ipad(324 - ilCharStrLen(AuthComment));
-	ifree(AuthName);
-	ifree(AuthComment);
 	
 	// Write time/date
 	iGetDateTime(&Month, &Day, &Year, &Hour, &Minute, &Second);
@@ -833,12 +809,11 @@ ILboolean iSaveTargaInternal()
 	SaveLittleUInt(0);	// No developer directory
 	iwrite(Footer, 1, ilCharStrLen(Footer)+1);
 	
-	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
+	bRet = IL_TRUE;
+
+cleanup:
+	if (TempImage != NULL && TempData != (char*)TempImage->Data)
 		ifree(TempData);
-	}
-	if (Format == IL_RGB || Format == IL_RGBA) {
-		ilSwapColours();
-	}
 	
 	if (TempPal != &iCurImage->Pal && TempPal != NULL) {
 		ifree(TempPal->Palette);
@@ -847,54 +822,11 @@ ILboolean iSaveTargaInternal()
 	
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
+	ifree(ID);
+	ifree(AuthName);
+	ifree(AuthComment);
 
-	return IL_TRUE;
-}
-
-
-// Only to be called by ilDetermineSize.  Returns the buffer size needed to save the
-//  current image as a Targa file.
-ILuint iTargaSize(void)
-{
-	ILuint	Size, Bpp;
-	ILubyte	IDLen = 0;
-	const char	*ID = iGetString(IL_TGA_ID_STRING);
-	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
-	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
-
-	//@TODO: Support color indexed images.
-	if (iGetInt(IL_TGA_RLE) == IL_TRUE || iCurImage->Format == IL_COLOUR_INDEX) {
-		// Use the slower method, since we are using compression.  We do a "fake" write.
-		ilSaveTargaL(NULL, 0);
-	}
-
-	if (ID)
-		IDLen = (ILubyte)ilCharStrLen(ID);
-
-	Size = 18 + IDLen;  // Header + ID
-
-	// Bpp may not be iCurImage->Bpp.
-	switch (iCurImage->Format)
-	{
-		case IL_BGR:
-		case IL_RGB:
-			Bpp = 3;
-			break;
-		case IL_BGRA:
-		case IL_RGBA:
-			Bpp = 4;
-			break;
-		case IL_LUMINANCE:
-			Bpp = 1;
-			break;
-		default:  //@TODO: Do not know what to do with the others yet.
-			return 0;
-	}
-
-	Size += iCurImage->Width * iCurImage->Height * Bpp;
-	Size += 532;  // Size of the extension area
-
-	return Size;
+	return bRet;
 }
 
 
-- 
2.43.0


From 70a54e29624107bc7c84f5d764efe76741983725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 044/161] fix: VTF: DXT data sizes, retained DXT data crash,
 truncated files, lower-left/float/DXT saves, size of a VTF save

---
 DevIL/src-IL/src/il_size.cpp |   6 ++
 DevIL/src-IL/src/il_vtf.cpp  | 161 +++++++++++++++++++----------------
 2 files changed, 92 insertions(+), 75 deletions(-)

diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index ca622a5..009a40a 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -169,6 +169,12 @@ ILuint ilDetermineSize(ILenum Type)
 			break;
 		#endif//IL_NO_TIF
 
+		#ifndef IL_NO_VTF
+		case IL_VTF:
+			Size = ilSaveVtfL(NULL, 0);
+			break;
+		#endif//IL_NO_VTF
+
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
 			Size = ilSaveWbmpL(NULL, 0);
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index af7c0ba..4a61e70 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -214,6 +214,9 @@ ILboolean ilLoadVtfL(const void *Lump, ILuint Size)
 }
 
 
+// Size of DXT compressed data: always whole blocks of 4x4 pixels.
+#define VTF_DXT_SIZE(w, h, d, Block) ((((w) + 3) / 4) * (((h) + 3) / 4) * (d) * (Block))
+
 // Internal function used to load the VTF.
 ILboolean iLoadVtfInternal(void)
 {
@@ -221,17 +224,14 @@ ILboolean iLoadVtfInternal(void)
 	ILimage		*Image, *BaseImage;
 	ILenum		Format, Type;
 	ILint		Frame, Face, Mipmap;
-	ILuint		SizeOfData, Channels, k;
+	ILuint		SizeOfData, Channels, k, FirstPos;
 	ILubyte		*CompData = NULL, SwapVal, *Data16Bit, *Temp, NumFaces;
 	VTFHEAD		Head;
-	ILuint		CurName;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	CurName = ilGetCurName();
-	
 	if (!iGetVtfHead(&Head))
 		return IL_FALSE;
 	if (!iCheckVtf(&Head)) {
@@ -249,11 +249,22 @@ ILboolean iLoadVtfInternal(void)
 
 	// Skip the low resolution image.  This is just a thumbnail.
 	//  The block size is 8, and the compression ratio is 6:1.
-	SizeOfData = IL_MAX(Head.LowResImageWidth * Head.LowResImageHeight / 2, 8);
+	SizeOfData = VTF_DXT_SIZE(Head.LowResImageWidth, Head.LowResImageHeight, 1, 8);
 	if (Head.LowResImageWidth == 0 && Head.LowResImageHeight == 0)
 		SizeOfData = 0;  // No low resolution image present.
 	iseek(SizeOfData, IL_SEEK_CUR);
 
+	// Every frame, face and mipmap takes at least one byte of the file.
+	FirstPos = itell();
+	iseek(0, IL_SEEK_END);
+	SizeOfData = itell();
+	iseek(FirstPos, IL_SEEK_SET);
+	if (Head.Frames == 0 || Head.MipmapCount == 0 || Head.MipmapCount > 17
+		|| SizeOfData < FirstPos || SizeOfData - FirstPos < (ILuint)Head.Frames * NumFaces * Head.MipmapCount) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	//@TODO: Make this a helper function that set channels, bpc and format.
 	switch (Head.HighResImageFormat)
 	{
@@ -363,7 +374,8 @@ ILboolean iLoadVtfInternal(void)
 	// The origin should be in the upper left.
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	// Create any mipmaps.
-	VtfInitFacesMipmaps(iCurImage, NumFaces, &Head);
+	if (!VtfInitFacesMipmaps(iCurImage, NumFaces, &Head))
+		return IL_FALSE;
 
 	// Create our animation chain
 	BaseImage = Image = iCurImage;  // Top-level image
@@ -376,7 +388,8 @@ ILboolean iLoadVtfInternal(void)
 		Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
 		// Create our faces and mipmaps for each frame.
-		VtfInitFacesMipmaps(Image, NumFaces, &Head);
+		if (!VtfInitFacesMipmaps(Image, NumFaces, &Head))
+			return IL_FALSE;
 	}
 
 	// We want to put the smallest mipmap at the end, but it is first in the file, so we count backwards.
@@ -385,12 +398,13 @@ ILboolean iLoadVtfInternal(void)
 		for (Frame = 0; Frame < Head.Frames; Frame++) {
 			// @TODO: Cubemap faces are always in the same order?
 			for (Face = 0; Face < NumFaces; Face++) {
-				//@TODO: Would probably be quicker to do the linked list traversal manually here.
-				ilBindImage(CurName);
-				ilActiveImage(Frame);
-				ilActiveFace(Face);
-				ilActiveMipmap(Mipmap);
-				Image = iCurImage;
+				Image = BaseImage;
+				for (k = 0; k < (ILuint)Frame; k++)
+					Image = Image->Next;
+				for (k = 0; k < (ILuint)Face; k++)
+					Image = Image->Faces;
+				for (k = 0; k < (ILuint)Mipmap; k++)
+					Image = Image->Mipmaps;
 
 				switch (Head.HighResImageFormat)
 				{
@@ -398,55 +412,64 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_DXT1:
 					case IMAGE_FORMAT_DXT1_ONEBITALPHA:
 						// The block size is 8.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth / 2, 8);
-						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 6:1 compression ratio (or 8:1 for DXT1 with alpha)
+						SizeOfData = VTF_DXT_SIZE(Image->Width, Image->Height, Image->Depth, 8);
+						CompData = (ILubyte*)ialloc(SizeOfData);
 						if (CompData == NULL)
 							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
-						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
+						bVtf = DecompressDXT1(Image, CompData);
+						// Keep the DXTC data if the user wants it.
+						if (bVtf && ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
-							Image->DxtcFormat = IL_DXT5;
+							Image->DxtcFormat = (Head.HighResImageFormat == IMAGE_FORMAT_DXT1) ? IL_DXT1 : IL_DXT1A;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT1(Image, CompData);
 						break;
 
 					// DXT3 compression
 					case IMAGE_FORMAT_DXT3:
 						// The block size is 16.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
-						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
+						SizeOfData = VTF_DXT_SIZE(Image->Width, Image->Height, Image->Depth, 16);
+						CompData = (ILubyte*)ialloc(SizeOfData);
 						if (CompData == NULL)
 							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
-						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
+						bVtf = DecompressDXT3(Image, CompData);
+						// Keep the DXTC data if the user wants it.
+						if (bVtf && ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
 							Image->DxtcFormat = IL_DXT3;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT3(Image, CompData);
 						break;
 
 					// DXT5 compression
 					case IMAGE_FORMAT_DXT5:
 						// The block size is 16.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
-						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
+						SizeOfData = VTF_DXT_SIZE(Image->Width, Image->Height, Image->Depth, 16);
+						CompData = (ILubyte*)ialloc(SizeOfData);
 						if (CompData == NULL)
 							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
-						// Keep a copy of the DXTC data if the user wants it.
-						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
+						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
+						bVtf = DecompressDXT5(Image, CompData);
+						// Keep the DXTC data if the user wants it.
+						if (bVtf && ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
 							Image->DxtcFormat = IL_DXT5;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT5(Image, CompData);
 						break;
 
 					// Uncompressed BGR(A) data (24-bit and 32-bit)
@@ -567,7 +590,7 @@ ILboolean iLoadVtfInternal(void)
 							Image->Data[k+1] = ((Data16Bit[0] & 0xE0) >> 2) | ((Data16Bit[1] & 0x03) << 6);
 							Image->Data[k+2] =  (Data16Bit[1] & 0x7C) << 1;
 							// 1-bit alpha is either off or on.
-							Image->Data[k+3] = ((Data16Bit[0] & 0x80) == 0x80) ? 0xFF : 0x00;
+							Image->Data[k+3] = ((Data16Bit[1] & 0x80) == 0x80) ? 0xFF : 0x00;
 							Data16Bit += 2;
 						}
 						break;
@@ -576,6 +599,8 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_BGRX5551:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
+						if (CompData == NULL)
+							return IL_FALSE;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -617,7 +642,6 @@ ILboolean iLoadVtfInternal(void)
 		}
 	}
 
-	ilBindImage(CurName);  // Set to parent image first.
 	return ilFixImage();
 }
 
@@ -652,7 +676,8 @@ ILboolean VtfInitFacesMipmaps(ILimage *BaseImage, ILuint NumFaces, VTFHEAD *Head
 	ILuint	Face;
 
 	// Initialize mipmaps under the base image.
-	VtfInitMipmaps(BaseImage, Header);
+	if (!VtfInitMipmaps(BaseImage, Header))
+		return IL_FALSE;
 	Image = BaseImage;
 
 	// We have an environment map.
@@ -672,7 +697,8 @@ ILboolean VtfInitFacesMipmaps(ILimage *BaseImage, ILuint NumFaces, VTFHEAD *Head
 		Image->CubeFlags = GetFaceFlag(Face);
 
 		// Now we can initialize the mipmaps under each face.
-		VtfInitMipmaps(Image, Header);
+		if (!VtfInitMipmaps(Image, Header))
+			return IL_FALSE;
 	}
 
 	return IL_TRUE;
@@ -712,7 +738,11 @@ ILboolean VtfInitMipmaps(ILimage *BaseImage, VTFHEAD *Header)
 
 ILboolean CheckDimensions()
 {
-	if ((ilNextPower2(iCurImage->Width) != iCurImage->Width) || (ilNextPower2(iCurImage->Height) != iCurImage->Height)) {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+	if (iCurImage->Width > 0x8000 || iCurImage->Height > 0x8000 || (ilNextPower2(iCurImage->Width) != iCurImage->Width) || (ilNextPower2(iCurImage->Height) != iCurImage->Height)) {
 		ilSetError(IL_BAD_DIMENSIONS);
 		return IL_FALSE;
 	}
@@ -782,9 +812,15 @@ ILuint ilSaveVtfL(void *Lump, ILuint Size)
 ILboolean iSaveVtfInternal()
 {
 	ILimage	*TempImage = iCurImage;
-	ILubyte	*TempData, *CompData;
-	ILuint	Format, i, CompSize;
+	ILubyte	*TempData, *OrigData;
+	ILuint	Format, i;
 	ILenum	Compression;
+	ILboolean	bRet;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	// Find out if the user has specified to use DXT compression.
 	Compression = ilGetInteger(IL_VTF_COMP);
@@ -826,8 +862,8 @@ ILboolean iSaveVtfInternal()
 		if (TempImage->Format == IL_RGBA && TempImage->Type == IL_UNSIGNED_SHORT) {
 			Format = IMAGE_FORMAT_RGBA16161616;
 		}
-		else if (TempImage->Type != IL_UNSIGNED_BYTE) {  //@TODO: Any possibility for shorts, etc. to be used?
-			TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
+		else if (TempImage->Type != IL_UNSIGNED_BYTE && TempImage->Type != IL_BYTE) {  //@TODO: Any possibility for shorts, etc. to be used?
+			TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
 				return IL_FALSE;
 		}
@@ -836,6 +872,7 @@ ILboolean iSaveVtfInternal()
 		switch (Compression)
 		{
 			case IL_DXT1:
+			case IL_DXT1A:
 				Format = IMAGE_FORMAT_DXT1_ONEBITALPHA;//IMAGE_FORMAT_DXT1;
 				break;
 			case IL_DXT3:
@@ -853,7 +890,8 @@ ILboolean iSaveVtfInternal()
 	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	} else {
@@ -905,40 +943,13 @@ ILboolean iSaveVtfInternal()
 
 	if (Compression == IL_DXT_NO_COMP) {
 		// We just write the image data directly.
-		if (iwrite(TempImage->Data, TempImage->SizeOfData, 1) != 1)
-			return IL_FALSE;
+		bRet = (iwrite(TempData, 1, TempImage->SizeOfPlane) == TempImage->SizeOfPlane);
 	}
 	else {  // Do DXT compression here and write.
-		// We have to find out how much we are writing first.
-		CompSize = ilGetDXTCData(NULL, 0, Compression);
-		if (CompSize == 0) {
-			ilSetError(IL_INTERNAL_ERROR);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-		CompData = (ILubyte*)ialloc(CompSize);
-		if (CompData == NULL) {
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-
-		// DXT compress the data.
-		CompSize = ilGetDXTCData(CompData, CompSize, Compression);
-		if (CompSize == 0) {
-			ilSetError(IL_INTERNAL_ERROR);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-		// Finally write the data.
-		if (iwrite(CompData, CompSize, 1) != 1) {
-			ifree(CompData);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
+		OrigData = TempImage->Data;
+		TempImage->Data = TempData;
+		bRet = (Compress(TempImage, Compression) != 0);
+		TempImage->Data = OrigData;
 	}
 
 	if (TempData != TempImage->Data)
@@ -946,7 +957,7 @@ ILboolean iSaveVtfInternal()
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
 
-	return IL_TRUE;
+	return bRet;
 }
 
 
-- 
2.43.0


From 48061c1f0435605aa7818d884d64adb4554db8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 045/161] fix: WBMP files could not be loaded; truncated files;
 the fix-up modes were ignored

---
 DevIL/src-IL/src/il_wbmp.cpp | 51 ++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 24ffee6..d6f881f 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -68,9 +68,8 @@ ILboolean ilLoadWbmpL(const void *Lump, ILuint Size)
 
 ILboolean iLoadWbmpInternal(void)
 {
-	ILuint	Width, Height, BitPadding, i;
-	BITFILE	*File;
-	ILubyte	Padding[8];
+	ILuint	Width, Height, RowSize, i, j;
+	ILubyte	*Row;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -94,29 +93,24 @@ ILboolean iLoadWbmpInternal(void)
 		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;  // Always has origin in the upper left.
 
-	BitPadding = (8 - (Width % 8)) % 8;  // Has to be aligned on a byte boundary.  The rest is padding.
-	File = bfile(iGetFile());
-	if (File == NULL)
-		return IL_FALSE;  //@TODO: Error?
-
-	//@TODO: Do this without bread?  Would be faster, since we would not have to do
-	//  the second loop.
+	RowSize = Width / 8 + (Width % 8 != 0);  // Has to be aligned on a byte boundary.  The rest is padding.
+	Row = (ILubyte*)ialloc(RowSize);
+	if (Row == NULL)
+		return IL_FALSE;
 
-	// Reads the bits
+	// Reads the bits: 1 is white and 0 is black.
 	for (i = 0; i < iCurImage->Height; i++) {
-		bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
-		//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
-		bread(Padding, 1, BitPadding, File);  // Skip padding bits.
-	}
-	// Converts bit value of 1 to white and leaves 0 at 0 (2-colour images only).
-	for (i = 0; i < iCurImage->SizeOfData; i++) {
-		if (iCurImage->Data[i] == 1)
-			iCurImage->Data[i] = 0xFF;  // White
+		if (iread(Row, 1, RowSize) != RowSize) {
+			ifree(Row);
+			return IL_FALSE;
+		}
+		for (j = 0; j < Width; j++)
+			iCurImage->Data[(ILsizei)iCurImage->Width * i + j] = (Row[j / 8] & (0x80 >> (j % 8))) ? 0xFF : 0x00;
 	}
 
-	bclose(File);
+	ifree(Row);
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
@@ -226,11 +220,10 @@ ILboolean iSaveWbmpInternal()
 	ILubyte	*TempData, *Pal;
 	ILuint	Lum[2], Mid, NumUsed = 0;
 
-	iputc(0);  // First two header values
-	iputc(0);  //  must be 0.
-
-	WbmpPutMultibyte(iCurImage->Width);  // Write the width
-	WbmpPutMultibyte(iCurImage->Height); //  and the height.
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	//TempImage = iConvertImage(iCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
 	if (iGetInt(IL_QUANTIZATION_MODE) == IL_NEU_QUANT)
@@ -251,6 +244,12 @@ ILboolean iSaveWbmpInternal()
 		TempData = TempImage->Data;
 	}
 
+	iputc(0);  // First two header values
+	iputc(0);  //  must be 0.
+
+	WbmpPutMultibyte(TempImage->Width);  // Write the width
+	WbmpPutMultibyte(TempImage->Height); //  and the height.
+
 	// The brighter one of both colours is white.
 	Pal = TempImage->Pal.Palette;
 	for (i = 0; i < 2; i++)
-- 
2.43.0


From f23e6aaec45ed96bbf9f3d8fa7be0dcb96f63fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 046/161] fix: SGI: 16-bit and signed images were saved and
 loaded wrongly, RLE overruns of the line buffer, truncated data

---
 DevIL/src-IL/src/il_sgi.cpp | 203 +++++++++++++++---------------------
 1 file changed, 82 insertions(+), 121 deletions(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 3f07f65..d265a5e 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -211,13 +211,9 @@ ILboolean iLoadSgiInternal()
 
 ILboolean iReadRleSgi(iSgiHeader *Head)
 {
-	#ifdef __LITTLE_ENDIAN__
-	ILuint ixTable;
-	#endif
-	ILuint 		ChanInt = 0;
-	ILuint  	ixPlane, ixHeight,ixPixel, RleOff, RleLen;
-	ILuint		*OffTable=NULL, *LenTable=NULL, TableSize, Cur;
-	ILubyte		**TempData=NULL;
+	ILuint	ixTable, ixPlane, ixHeight, ixPixel, TableSize, Bps = Head->XSize * Head->Bpc;
+	ILuint	*OffTable = NULL, *LenTable = NULL;
+	ILubyte	*ScanLine = NULL, *Dest;
 
 	if (!iNewSgi(Head))
 		return IL_FALSE;
@@ -225,7 +221,8 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 	TableSize = Head->YSize * Head->ZSize;
 	OffTable = (ILuint*)ialloc(TableSize * sizeof(ILuint));
 	LenTable = (ILuint*)ialloc(TableSize * sizeof(ILuint));
-	if (OffTable == NULL || LenTable == NULL)
+	ScanLine = (ILubyte*)ialloc(Bps);
+	if (OffTable == NULL || LenTable == NULL || ScanLine == NULL)
 		goto cleanup_error;
 	if (iread(OffTable, TableSize * sizeof(ILuint), 1) != 1)
 		goto cleanup_error;
@@ -240,51 +237,25 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 	}
 #endif //__LITTLE_ENDIAN__
 
-	// We have to create a temporary buffer for the image, because SGI
-	//	images are plane-separated.
-	TempData = (ILubyte**)ialloc(Head->ZSize * sizeof(ILubyte*));
-	if (TempData == NULL)
-		goto cleanup_error;
-	imemclear(TempData, Head->ZSize * sizeof(ILubyte*));  // Just in case ialloc fails then cleanup_error.
-	for (ixPlane = 0; ixPlane < Head->ZSize; ixPlane++) {
-		TempData[ixPlane] = (ILubyte*)ialloc(Head->XSize * Head->YSize * Head->Bpc);
-		if (TempData[ixPlane] == NULL)
-			goto cleanup_error;
-	}
-
-	// Read the Planes into the temporary memory
+	// SGI images are plane-separated.
 	for (ixPlane = 0; ixPlane < Head->ZSize; ixPlane++) {
-		for (ixHeight = 0, Cur = 0;	ixHeight < Head->YSize;
-			ixHeight++, Cur += Head->XSize * Head->Bpc) {
+		for (ixHeight = 0; ixHeight < Head->YSize; ixHeight++) {
+			ixTable = ixHeight + ixPlane * Head->YSize;
 
-			RleOff = OffTable[ixHeight + ixPlane * Head->YSize];
-			RleLen = LenTable[ixHeight + ixPlane * Head->YSize];
-			
 			// Seeks to the offset table position
-			iseek(RleOff, IL_SEEK_SET);
-			if (iGetScanLine((TempData[ixPlane]) + (ixHeight * Head->XSize * Head->Bpc),
-				Head, RleLen) != Head->XSize * Head->Bpc) {
-					ilSetError(IL_ILLEGAL_FILE_VALUE);
-					goto cleanup_error;
+			iseek(OffTable[ixTable], IL_SEEK_SET);
+			if (iGetScanLine(ScanLine, Head, LenTable[ixTable]) != (ILint)Bps) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto cleanup_error;
 			}
-		}
-	}
 
-	// DW: Removed on 05/25/2002.
-	/*// Check if an alphaplane exists and invert it
-	if (Head->ZSize == 4) {
-		for (ixPixel=0; (ILint)ixPixel<Head->XSize * Head->YSize; ixPixel++) {
- 			TempData[3][ixPixel] = TempData[3][ixPixel] ^ 255;
- 		}	
-	}*/
-	
-	// Assemble the image from its planes
-	for (ixPixel = 0; ixPixel < iCurImage->SizeOfData;
-		ixPixel += Head->ZSize * Head->Bpc, ChanInt += Head->Bpc) {
-		for (ixPlane = 0; (ILint)ixPlane < Head->ZSize * Head->Bpc;	ixPlane += Head->Bpc) {
-			iCurImage->Data[ixPixel + ixPlane] = TempData[ixPlane][ChanInt];
-			if (Head->Bpc == 2)
-				iCurImage->Data[ixPixel + ixPlane + 1] = TempData[ixPlane][ChanInt + 1];
+			Dest = iCurImage->Data + ixHeight * iCurImage->Bps + ixPlane * Head->Bpc;
+			for (ixPixel = 0; ixPixel < Bps; ixPixel += Head->Bpc) {
+				Dest[0] = ScanLine[ixPixel];
+				if (Head->Bpc == 2)
+					Dest[1] = ScanLine[ixPixel + 1];
+				Dest += Head->ZSize * Head->Bpc;
+			}
 		}
 	}
 
@@ -295,75 +266,51 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 
 	ifree(OffTable);
 	ifree(LenTable);
-
-	for (ixPlane = 0; ixPlane < Head->ZSize; ixPlane++) {
-		ifree(TempData[ixPlane]);
-	}
-	ifree(TempData);
+	ifree(ScanLine);
 
 	return IL_TRUE;
 
 cleanup_error:
 	ifree(OffTable);
 	ifree(LenTable);
-	if (TempData) {
-		for (ixPlane = 0; ixPlane < Head->ZSize; ixPlane++) {
-			ifree(TempData[ixPlane]);
-		}
-		ifree(TempData);
-	}
+	ifree(ScanLine);
 
 	return IL_FALSE;
 }
 
 /*----------------------------------------------------------------------------*/
 
+// Expands a line and keeps the samples in the byte order of the file.
 ILint iGetScanLine(ILubyte *ScanLine, iSgiHeader *Head, ILuint Length)
 {
-	ILushort Pixel, Count;  // For current pixel
-	ILuint	 BppRead = 0, CurPos = 0, Bps = Head->XSize * Head->Bpc;
+	ILubyte	Pixel[2];
+	ILuint	Count, i, BppRead = 0, CurPos = 0, Bps = Head->XSize * Head->Bpc;
 
 	while (BppRead < Length && CurPos < Bps)
 	{
-		Pixel = 0;
-		if (iread(&Pixel, Head->Bpc, 1) != 1)
+		// The count is in the low byte of a (big endian) sample.
+		if (iread(Pixel, Head->Bpc, 1) != 1)
 			return -1;
-		
-#ifndef __LITTLE_ENDIAN__
-		iSwapUShort(&Pixel);
-#endif
+		BppRead += Head->Bpc;
 
-		if (!(Count = (Pixel & 0x7f)))  // If 0, line ends
+		Count = (Pixel[Head->Bpc - 1] & 0x7f) * Head->Bpc;
+		if (Count == 0)  // If 0, line ends
 			return CurPos;
-		if (Pixel & 0x80) {  // If top bit set, then it is a "run"
-			if (iread(ScanLine, Head->Bpc, Count) != Count)
+		if (Count > Bps - CurPos)
+			return -1;
+		if (Pixel[Head->Bpc - 1] & 0x80) {  // If top bit set, then the samples follow
+			if (iread(ScanLine + CurPos, 1, Count) != Count)
 				return -1;
-			BppRead += Head->Bpc * Count + Head->Bpc;
-			ScanLine += Head->Bpc * Count;
-			CurPos += Head->Bpc * Count;
+			BppRead += Count;
 		}
 		else {
-			if (iread(&Pixel, Head->Bpc, 1) != 1)
+			if (iread(Pixel, Head->Bpc, 1) != 1)
 				return -1;
-#ifndef __LITTLE_ENDIAN__
-			iSwapUShort(&Pixel);
-#endif
-			if (Head->Bpc == 1) {
-				while (Count--) {
-					*ScanLine = (ILubyte)Pixel;
-					ScanLine++;
-					CurPos++;
-				}
-			}
-			else {
-				while (Count--) {
-					*(ILushort*)ScanLine = Pixel;
-					ScanLine += 2;
-					CurPos += 2;
-				}
-			}
-			BppRead += Head->Bpc + Head->Bpc;
+			for (i = 0; i < Count; i++)
+				ScanLine[CurPos + i] = Pixel[i % Head->Bpc];
+			BppRead += Head->Bpc;
 		}
+		CurPos += Count;
 	}
 
 	return CurPos;
@@ -391,8 +338,8 @@ ILboolean iReadNonRleSgi(iSgiHeader *Head)
 	}
 
 	for (c = 0; c < iCurImage->Bpp; c++) {
-		for (i = c; i < iCurImage->SizeOfData; i += iCurImage->Bpp) {
-			if (iread(iCurImage->Data + i, 1, 1) != 1) {
+		for (i = c * Head->Bpc; i < iCurImage->SizeOfData; i += iCurImage->Bpp * Head->Bpc) {
+			if (iread(iCurImage->Data + i, 1, Head->Bpc) != Head->Bpc) {
 				if (Cache)
 					iUnCache();
 				return IL_FALSE;
@@ -403,6 +350,11 @@ ILboolean iReadNonRleSgi(iSgiHeader *Head)
 	if (Cache)
 		iUnCache();
 
+	#ifdef __LITTLE_ENDIAN__
+	if (Head->Bpc == 2)
+		sgiSwitchData(iCurImage->Data, iCurImage->SizeOfData);
+	#endif
+
 	return IL_TRUE;
 }
 
@@ -442,24 +394,21 @@ void sgiSwitchData(ILubyte *Data, ILuint SizeOfData)
 // Just an internal convenience function for reading SGI files
 ILboolean iNewSgi(iSgiHeader *Head)
 {
-	if (!ilTexImage(Head->XSize, Head->YSize, Head->Bpc, (ILubyte)Head->ZSize, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+	ILenum	Format, Type;
 
 	switch (Head->ZSize)
 	{
 		case 1:
-			iCurImage->Format = IL_LUMINANCE;
+			Format = IL_LUMINANCE;
 			break;
 		/*case 2:
-			iCurImage->Format = IL_LUMINANCE_ALPHA; 
+			Format = IL_LUMINANCE_ALPHA; 
 			break;*/
 		case 3:
-			iCurImage->Format = IL_RGB;
+			Format = IL_RGB;
 			break;
 		case 4:
-			iCurImage->Format = IL_RGBA;
+			Format = IL_RGBA;
 			break;
 		default:
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -470,21 +419,24 @@ ILboolean iNewSgi(iSgiHeader *Head)
 	{
 		case 1:
 			if (Head->PixMin < 0)
-				iCurImage->Type = IL_BYTE;
+				Type = IL_BYTE;
 			else
-				iCurImage->Type = IL_UNSIGNED_BYTE;
+				Type = IL_UNSIGNED_BYTE;
 			break;
 		case 2:
 			if (Head->PixMin < 0)
-				iCurImage->Type = IL_SHORT;
+				Type = IL_SHORT;
 			else
-				iCurImage->Type = IL_UNSIGNED_SHORT;
+				Type = IL_UNSIGNED_SHORT;
 			break;
 		default:
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
 
+	if (!ilTexImage(Head->XSize, Head->YSize, 1, (ILubyte)Head->ZSize, Format, Type, NULL)) {
+		return IL_FALSE;
+	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
 	return IL_TRUE;
@@ -546,12 +498,10 @@ ILuint ilSaveSgiL(void *Lump, ILuint Size)
 
 ILenum DetermineSgiType(ILenum Type)
 {
-	if (Type > IL_UNSIGNED_SHORT) {
-		if (iCurImage->Type == IL_INT)
-			return IL_SHORT;
-		return IL_UNSIGNED_SHORT;
-	}
-	return Type;
+	// Only unsigned samples of one or two bytes can be stored.
+	if (Type == IL_UNSIGNED_BYTE || Type == IL_BYTE)
+		return IL_UNSIGNED_BYTE;
+	return IL_UNSIGNED_SHORT;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -565,6 +515,7 @@ ILboolean iSaveSgiInternal()
 	ILboolean	Compress;
 	ILimage		*Temp = iCurImage;
 	ILubyte		*TempData;
+	ILboolean	bRet = IL_TRUE;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -583,15 +534,21 @@ ILboolean iSaveSgiInternal()
 		else
 			Temp = iConvertImage(iCurImage, IL_RGB, DetermineSgiType(iCurImage->Type));
 	}
-	else if (iCurImage->Type > IL_UNSIGNED_SHORT) {
+	else if (iCurImage->Type != IL_UNSIGNED_BYTE && iCurImage->Type != IL_UNSIGNED_SHORT) {
 		Temp = iConvertImage(iCurImage, iCurImage->Format, DetermineSgiType(iCurImage->Type));
 	}
 	
-	//compression of images with 2 bytes per channel doesn't work yet
-	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
-
 	if (Temp == NULL)
 		return IL_FALSE;
+	if (Temp->Width > 0xFFFF || Temp->Height > 0xFFFF) {
+		ilSetError(IL_BAD_DIMENSIONS);
+		if (Temp != iCurImage)
+			ilCloseImage(Temp);
+		return IL_FALSE;
+	}
+
+	//compression of images with 2 bytes per channel doesn't work yet
+	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
 
 	SaveBigUShort(SGI_MAGICNUM);  // 'Magic' number
 	if (Compress)
@@ -638,7 +595,7 @@ ILboolean iSaveSgiInternal()
 
 	if (FName) {
 		c = ilCharStrLen(FName);
-		c = c < 79 ? 79 : c;
+		c = c > 79 ? 79 : c;
 		iwrite(FName, 1, c);
 		c = 80 - c;
 		for (i = 0; i < c; i++) {
@@ -674,13 +631,17 @@ ILboolean iSaveSgiInternal()
 
 	if (!Compress) {
 		for (c = 0; c < Temp->Bpp; c++) {
-			for (i = c; i < Temp->SizeOfData; i += Temp->Bpp) {
-				iputc(TempData[i]);  // Have to save each colour plane separately.
+			// Have to save each colour plane separately, most significant bytes first.
+			for (i = c * Temp->Bpc; i < Temp->SizeOfPlane; i += Temp->Bpp * Temp->Bpc) {
+				if (Temp->Bpc == 1)
+					iputc(TempData[i]);
+				else
+					SaveBigUShort(*(ILushort*)(TempData + i));
 			}
 		}
 	}
 	else {
-		iSaveRleSgi(TempData, Temp->Width, Temp->Height, Temp->Bpp, Temp->Bps);
+		bRet = iSaveRleSgi(TempData, Temp->Width, Temp->Height, Temp->Bpp, Temp->Bps);
 	}
 
 
@@ -689,7 +650,7 @@ ILboolean iSaveSgiInternal()
 	if (Temp != iCurImage)
 		ilCloseImage(Temp);
 
-	return IL_TRUE;
+	return bRet;
 }
 
 /*----------------------------------------------------------------------------*/
-- 
2.43.0


From 412eb5d8df1c14d7f5e37cd319fc0a56f1387177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 047/161] fix: RAW loader: two-channel and malformed files gave
 inconsistent images

---
 DevIL/src-IL/src/il_raw.cpp | 51 ++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/DevIL/src-IL/src/il_raw.cpp b/DevIL/src-IL/src/il_raw.cpp
index 881fdd3..e90575d 100644
--- a/DevIL/src-IL/src/il_raw.cpp
+++ b/DevIL/src-IL/src/il_raw.cpp
@@ -70,27 +70,49 @@ ILboolean ilLoadRawL(const void *Lump, ILuint Size)
 // Internal function to load a raw image
 ILboolean iLoadRawInternal()
 {
+	ILuint	Width, Height, Depth;
+	ILubyte	Bpp, Bpc;
+	ILenum	Format, Type;
+
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
 
-	iCurImage->Width = GetLittleUInt();
-
-	iCurImage->Height = GetLittleUInt();
-
-	iCurImage->Depth = GetLittleUInt();
-
-	iCurImage->Bpp = (ILubyte)igetc();
-
-	if (iread(&iCurImage->Bpc, 1, 1) != 1)
+	Width = GetLittleUInt();
+	Height = GetLittleUInt();
+	Depth = GetLittleUInt();
+	Bpp = (ILubyte)igetc();
+	if (iread(&Bpc, 1, 1) != 1)
 		return IL_FALSE;
 
-	if (!ilTexImage(iCurImage->Width, iCurImage->Height, iCurImage->Depth, iCurImage->Bpp, 0, ilGetTypeBpc(iCurImage->Bpc), NULL)) {
+	switch (Bpp)
+	{
+		case 1:
+			Format = IL_LUMINANCE;
+			break;
+		case 2:
+			Format = IL_LUMINANCE_ALPHA;
+			break;
+		case 3:
+			Format = IL_RGB;
+			break;
+		case 4:
+			Format = IL_RGBA;
+			break;
+		default:
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+	}
+	Type = ilGetTypeBpc(Bpc);
+	if (Width == 0 || Height == 0 || Depth == 0 || Type == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
 	}
-	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+
+	if (!ilTexImage(Width, Height, Depth, Bpp, Format, Type, NULL))
+		return IL_FALSE;
 
 	// Tries to read the correct amount of data
 	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) < iCurImage->SizeOfData)
@@ -103,13 +125,6 @@ ILboolean iLoadRawInternal()
 		iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	}
 
-	if (iCurImage->Bpp == 1)
-		iCurImage->Format = IL_LUMINANCE;
-	else if (iCurImage->Bpp == 3)
-		iCurImage->Format = IL_RGB;
-	else  // 4
-		iCurImage->Format = IL_RGBA;
-
 	return ilFixImage();
 }
 
-- 
2.43.0


From 9e38d391deb90901152e8dcacb25f4b29cbccccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 048/161] fix: PCX: LUMINANCE_ALPHA/ALPHA saves, palette
 padding, 1-bit line padding, versions 3 and 4, malformed headers

---
 DevIL/src-IL/src/il_pcx.cpp | 60 +++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 38906d9..2086d2b 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -115,9 +115,11 @@ ILboolean iCheckPcx(PCXHEAD *Header)
 	// Try to support all pcx versions, as they only differ in allowed formats...
 	// Let's hope it works.
 	if(Header->Version != 5 && Header->Version != 0 && Header->Version != 2 &&
-		 Header->VDpi != 3 && Header->VDpi != 4)
+		 Header->Version != 3 && Header->Version != 4)
 		return IL_FALSE;
 
+	if (Header->Xmax < Header->Xmin || Header->Ymax < Header->Ymin)
+		return IL_FALSE;
 	// See if the padding size is correct
 	Test = Header->Xmax - Header->Xmin + 1;
 	if (Header->Bpp >= 8) {
@@ -130,6 +132,8 @@ ILboolean iCheckPcx(PCXHEAD *Header)
 				return IL_FALSE;
 		}
 	}
+	else if (Header->Bps < (Test * Header->Bpp + 7) / 8)
+		return IL_FALSE;
 
 	/* for (i = 0; i < 54; i++) { useless check
 		if (Header->Filler[i] != 0)
@@ -316,6 +320,14 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 
 	iUnCache();
 
+	// Only version 5 files have a palette of 256 colours.
+	if (Header->Version != 5 && iCurImage->Bpp == 1) {
+		iCurImage->Format = IL_LUMINANCE;
+		ifree(iCurImage->Pal.Palette);
+		iCurImage->Pal.Palette = NULL;
+		iCurImage->Pal.PalSize = 0;
+		iCurImage->Pal.PalType = IL_PAL_NONE;
+	}
 	// Read in the palette
 	if (Header->Version == 5 && iCurImage->Bpp == 1) {
 		ILuint HeadRead;
@@ -327,6 +339,7 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Format = IL_LUMINANCE;
 			if (iCurImage->Pal.Palette)
 				ifree(iCurImage->Pal.Palette);
+			iCurImage->Pal.Palette = NULL;
 			iCurImage->Pal.PalSize = 0;
 			iCurImage->Pal.PalType = IL_PAL_NONE;
 		}
@@ -376,8 +389,8 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 
 	if (Header->NumPlanes == 1 && Header->Bpp == 1) {
 		for (j = 0; j < iCurImage->Height; j++) {
-			i = 0; //number of written pixels
-			while (i < iCurImage->Width) {
+			i = 0; //number of read pixels
+			while (i < Header->Bps * 8u) {
 				if (iread(&HeadByte, 1, 1) != 1)
 					return IL_FALSE;
 				if (HeadByte >= 192) {
@@ -387,31 +400,23 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 
 					for (c = 0; c < HeadByte; c++) {
 						k = 128;
-						for (d = 0; d < 8 && i < iCurImage->Width; d++) {
-							iCurImage->Data[j * iCurImage->Width + i++] = ((Data & k) != 0 ? 255 : 0);
+						for (d = 0; d < 8; d++, i++) {
+							if (i < iCurImage->Width)  // The rest is padding.
+								iCurImage->Data[j * iCurImage->Width + i] = ((Data & k) != 0 ? 255 : 0);
 							k >>= 1;
 						}
 					}
 				}
 				else {
 					k = 128;
-					for (c = 0; c < 8 && i < iCurImage->Width; c++) {
-						iCurImage->Data[j * iCurImage->Width + i++] = ((HeadByte & k) != 0 ? 255 : 0);
+					for (c = 0; c < 8; c++, i++) {
+						if (i < iCurImage->Width)  // The rest is padding.
+							iCurImage->Data[j * iCurImage->Width + i] = ((HeadByte & k) != 0 ? 255 : 0);
 						k >>= 1;
 					}
 				}
 			}
 
-			//if(Data != 0)
-			//changed 2003-09-01:
-			//There has to be an even number of bytes per line in a pcx.
-			//One byte can hold up to 8 bits, so Width/8 bytes
-			//are needed to hold a 1 bit per pixel image line.
-			//If Width/8 is even no padding is needed,
-			//one pad byte has to be read otherwise.
-			//(let's hope the above is true ;-))
-			if(!((iCurImage->Width >> 3) & 0x1))
-				igetc();	// Skip pad byte
 		}
 	}
 	else if (Header->NumPlanes == 4 && Header->Bpp == 1){   // 4-bit images
@@ -423,6 +428,7 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 		if (iCurImage->Pal.Palette == NULL || ScanLine == NULL) {
 			ifree(ScanLine);
 			ifree(iCurImage->Pal.Palette);
+			iCurImage->Pal.Palette = NULL;
 			return IL_FALSE;
 		}
 		memcpy(iCurImage->Pal.Palette, Header->ColMap, 16 * 3);
@@ -546,6 +552,10 @@ ILboolean iSavePcxInternal()
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
+	if (iCurImage->Width >= 0xFFFF || iCurImage->Height > 0xFFFF) {
+		ilSetError(IL_BAD_DIMENSIONS);
+		return IL_FALSE;
+	}
 
 	switch (iCurImage->Format)
 	{
@@ -561,6 +571,9 @@ ILboolean iSavePcxInternal()
 				return IL_FALSE;
 			break;
 
+		// One plane is always indexed and two are not possible.
+		case IL_ALPHA:
+		case IL_LUMINANCE_ALPHA:
 		case IL_BGRA:
 			TempImage = iConvertImage(iCurImage, IL_RGBA, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
@@ -606,7 +619,7 @@ ILboolean iSavePcxInternal()
 	}
 	iputc(0x0);  // Reserved - always 0
 
-	iputc(iCurImage->Bpp);  // Number of planes - only 1 is supported right now
+	iputc(TempImage->Bpp);  // Number of planes - only 1 is supported right now
 
 	SaveLittleUShort((ILushort)(iCurImage->Width & 1 ? iCurImage->Width + 1 : iCurImage->Width));  // Bps
 	SaveLittleUShort(0x1);  // Palette type - ignored?
@@ -623,6 +636,8 @@ ILboolean iSavePcxInternal()
 		}
 	}
 
+	PalSize = 0;
+
 	// Automatically assuming we have a palette...dangerous!
 	//	Also assuming 3 bpp palette
 	iputc(0xC);  // Pad byte must have this value
@@ -631,7 +646,8 @@ ILboolean iSavePcxInternal()
 	if (TempImage->Format == IL_COLOUR_INDEX) {
 		// If the palette in .pcx format, write it directly
 		if (TempImage->Pal.PalType == IL_PAL_RGB24) {
-			iwrite(TempImage->Pal.Palette, 1, TempImage->Pal.PalSize);
+			PalSize = IL_MIN(TempImage->Pal.PalSize, 768);
+			iwrite(TempImage->Pal.Palette, 1, PalSize);
 		}
 		else {
 			TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
@@ -643,15 +659,15 @@ ILboolean iSavePcxInternal()
 				return IL_FALSE;
 			}
 
-			iwrite(TempPal->Palette, 1, TempPal->PalSize);
+			PalSize = IL_MIN(TempPal->PalSize, 768);
+			iwrite(TempPal->Palette, 1, PalSize);
 			ifree(TempPal->Palette);
 			ifree(TempPal);
 		}
 	}
 
 	// If the palette is not all 256 colours, we have to pad it.
-	PalSize = 768 - iCurImage->Pal.PalSize;
-	for (i = 0; i < PalSize; i++) {
+	for (i = PalSize; i < 768; i++) {
 		iputc(0x0);
 	}
 
-- 
2.43.0


From 4286ad3fa71be118e34c66459deb48fbf31e6b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 049/161] fix: PSD: uninitialised alpha, overruns and leaks in
 the loader, ZIP data read as RLE; the saver writes wrong headers for some
 formats and short palettes

---
 DevIL/src-IL/include/il_psd.h |   3 +-
 DevIL/src-IL/src/il_psd.cpp   | 779 ++++++++++++----------------------
 2 files changed, 263 insertions(+), 519 deletions(-)

diff --git a/DevIL/src-IL/include/il_psd.h b/DevIL/src-IL/include/il_psd.h
index 5bc576e..e5e7fbd 100644
--- a/DevIL/src-IL/include/il_psd.h
+++ b/DevIL/src-IL/include/il_psd.h
@@ -46,9 +46,8 @@ ILboolean	ReadIndexed(PSDHEAD *Head);
 ILboolean	ReadRGB(PSDHEAD *Head);
 ILboolean	ReadCMYK(PSDHEAD *Head);
 ILuint		*GetCompChanLen(PSDHEAD *Head);
-ILboolean	PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed);
+ILboolean	PsdGetData(PSDHEAD *Head, ILboolean Compressed);
 ILboolean	ParseResources(ILuint ResourceSize, ILubyte *Resources);
-ILboolean	GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed);
 ILboolean	iSavePsdInternal(void);
 
 
diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index bd3e953..f687ad5 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -224,183 +224,74 @@ ILboolean ReadPsd(PSDHEAD *Head)
 }
 
 
-ILboolean ReadGrey(PSDHEAD *Head)
+// Reads the sections between the header and the pixels: the colour mode data (kept only if Palette is not
+//	NULL), the image resources and the layers, and then the compression method of the pixels.
+static ILboolean ReadSections(ILubyte **Palette, ILuint *PalSize, ILubyte **Resources, ILuint *ResourceSize, ILushort *Compressed)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo;
-	ILushort	Compressed;
-	ILenum		Type;
-	ILubyte		*Resources = NULL;
+	ILuint Size;
 
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	iseek(ColorMode, IL_SEEK_CUR);
-
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL) {
+	*Resources = NULL;
+	if (iread(&Size, 4, 1) != 1)  // The 'color mode data section'
 		return IL_FALSE;
+	BigUInt(&Size);
+	if (Palette) {
+		if (Size == 0 || Size % 3 != 0) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
+		}
+		*Palette = (ILubyte*)ialloc(Size);
+		if (*Palette == NULL)
+			return IL_FALSE;
+		if (iread(*Palette, 1, Size) != Size)
+			return IL_FALSE;
+		*PalSize = Size;
 	}
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
-
-	MiscInfo = GetBigUInt();
-	iseek(MiscInfo, IL_SEEK_CUR);
-
-	Compressed = GetBigUShort();
-
-	ChannelNum = Head->Channels;
-	Head->Channels = 1;  // Temporary to read only one channel...some greyscale .psd files have 2.
-	if (Head->Channels != 1) {
-		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+	else if (Size > 0x7FFFFFFF || iseek(Size, IL_SEEK_CUR) != 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-	switch (Head->Depth)
-	{
-		case 8:
-			Type = IL_UNSIGNED_BYTE;
-			break;
-		case 16:
-			Type = IL_UNSIGNED_SHORT;
-			break;
-		default:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
+
+	if (iread(ResourceSize, 4, 1) != 1)  // The 'image resources section'
+		return IL_FALSE;
+	BigUInt(ResourceSize);
+	if (*ResourceSize != 0) {
+		*Resources = (ILubyte*)ialloc(*ResourceSize);
+		if (*Resources == NULL)
+			return IL_FALSE;
+		if (iread(*Resources, 1, *ResourceSize) != *ResourceSize)
 			return IL_FALSE;
 	}
 
-	if (!ilTexImage(Head->Width, Head->Height, 1, 1, IL_LUMINANCE, Type, NULL))
-		goto cleanup_error;
-	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
-		goto cleanup_error;
-	if (!ParseResources(ResourceSize, Resources))
-		goto cleanup_error;
-	ifree(Resources);
-
-	return IL_TRUE;
-
-cleanup_error:
-	ifree(Resources);
-	return IL_FALSE;
-}
-
-
-ILboolean ReadIndexed(PSDHEAD *Head)
-{
-	ILuint		ColorMode, ResourceSize, MiscInfo, i, j, NumEnt;
-	ILushort	Compressed;
-	ILubyte		*Palette = NULL, *Resources = NULL;
-
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	if (ColorMode % 3 != 0) {
+	if (iread(&Size, 4, 1) != 1)  // The layers
+		return IL_FALSE;
+	BigUInt(&Size);
+	if (Size > 0x7FFFFFFF || iseek(Size, IL_SEEK_CUR) != 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-	Palette = (ILubyte*)ialloc(ColorMode);
-	if (Palette == NULL)
-		return IL_FALSE;
-	if (iread(Palette, 1, ColorMode) != ColorMode)
-		goto cleanup_error;
 
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL) {
+	if (iread(Compressed, 2, 1) != 1)
 		return IL_FALSE;
-	}
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
-
-	MiscInfo = GetBigUInt();
-	if (ieof())
-		goto cleanup_error;
-	iseek(MiscInfo, IL_SEEK_CUR);
-
-	Compressed = GetBigUShort();
-	if (ieof())
-		goto cleanup_error;
-
-	if (Head->Channels != 1 || Head->Depth != 8) {
+	BigUShort(Compressed);
+	if (*Compressed > 1) {  // Only raw and RLE data
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		goto cleanup_error;
-	}
-	ChannelNum = Head->Channels;
-
-	if (!ilTexImage(Head->Width, Head->Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
-		goto cleanup_error;
-
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(ColorMode);
-	if (iCurImage->Pal.Palette == NULL) {
-		goto cleanup_error;
-	}
-	iCurImage->Pal.PalSize = ColorMode;
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-
-	NumEnt = iCurImage->Pal.PalSize / 3;
-	for (i = 0, j = 0; i < iCurImage->Pal.PalSize; i += 3, j++) {
-		iCurImage->Pal.Palette[i  ] = Palette[j];
-		iCurImage->Pal.Palette[i+1] = Palette[j+NumEnt];
-		iCurImage->Pal.Palette[i+2] = Palette[j+NumEnt*2];
+		return IL_FALSE;
 	}
-	ifree(Palette);
-	Palette = NULL;
-
-	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
-		goto cleanup_error;
-
-	ParseResources(ResourceSize, Resources);
-	ifree(Resources);
-	Resources = NULL;
 
 	return IL_TRUE;
-
-cleanup_error:
-	ifree(Palette);
-	ifree(Resources);
-
-	return IL_FALSE;
 }
 
 
-ILboolean ReadRGB(PSDHEAD *Head)
+static ILboolean ReadImage(PSDHEAD *Head, ILenum Format)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo;
+	ILuint		ResourceSize, PalSize = 0, i, NumEnt;
 	ILushort	Compressed;
-	ILenum		Format, Type;
-	ILubyte		*Resources = NULL;
-
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	iseek(ColorMode, IL_SEEK_CUR);
-
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL)
-		return IL_FALSE;
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
-
-	MiscInfo = GetBigUInt();
-	iseek(MiscInfo, IL_SEEK_CUR);
-
-	Compressed = GetBigUShort();
+	ILenum		Type;
+	ILubyte		*Resources = NULL, *Palette = NULL;
+	ILboolean	bRet = IL_FALSE;
 
-	ChannelNum = Head->Channels;
-	if (Head->Channels == 3)
- 	{
-		Format = IL_RGB;
-	}
-	else if (Head->Channels == 4)
-	{
-		Format = IL_RGBA;
-	}
-	else if (Head->Channels >= 5)
-	{
-		// Additional channels are accumulated as a single alpha channel, since
-		// if an image does not have a layer set as the "background", but also
-		// has a real alpha channel, there will be 5 channels (or more).
-		Format = IL_RGBA;
-	}
-	else
-	{
-		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
-	}
+	if (!ReadSections(Format == IL_COLOUR_INDEX ? &Palette : NULL, &PalSize, &Resources, &ResourceSize, &Compressed))
+		goto cleanup;
 
 	switch (Head->Depth)
 	{
@@ -412,116 +303,85 @@ ILboolean ReadRGB(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup;
+	}
+	// @TODO: Add support for this in, though I have yet to run across a .psd
+	//	file that uses this.
+	if (Type == IL_UNSIGNED_SHORT && (Compressed || Format == IL_COLOUR_INDEX)) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		goto cleanup;
 	}
-	if (!ilTexImage(Head->Width, Head->Height, 1, (Format==IL_RGB) ? 3 : 4, Format, Type, NULL))
-		goto cleanup_error;
-	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
-		goto cleanup_error;
-	if (!ParseResources(ResourceSize, Resources))
-		goto cleanup_error;
-	ifree(Resources);
 
-	return IL_TRUE;
+	if (!ilTexImage(Head->Width, Head->Height, 1, ilGetBppFormat(Format), Format, Type, NULL))
+		goto cleanup;
+
+	if (Palette) {
+		iCurImage->Pal.Palette = (ILubyte*)ialloc(PalSize);
+		if (iCurImage->Pal.Palette == NULL)
+			goto cleanup;
+		iCurImage->Pal.PalSize = PalSize;
+		iCurImage->Pal.PalType = IL_PAL_RGB24;
+
+		NumEnt = PalSize / 3;
+		for (i = 0; i < NumEnt; i++) {  // The palette is planar.
+			iCurImage->Pal.Palette[i*3  ] = Palette[i];
+			iCurImage->Pal.Palette[i*3+1] = Palette[i+NumEnt];
+			iCurImage->Pal.Palette[i*3+2] = Palette[i+NumEnt*2];
+		}
+	}
+
+	if (!PsdGetData(Head, (ILboolean)Compressed))
+		goto cleanup;
+	bRet = ParseResources(ResourceSize, Resources);
 
-cleanup_error:
+cleanup:
+	ifree(Palette);
 	ifree(Resources);
-	return IL_FALSE;
+	return bRet;
 }
 
 
-ILboolean ReadCMYK(PSDHEAD *Head)
+ILboolean ReadGrey(PSDHEAD *Head)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo, Size, i, j;
-	ILushort	Compressed;
-	ILenum		Format, Type;
-	ILubyte		*Resources = NULL, *KChannel = NULL;
+	// Some greyscale .psd files have 2 channels, of which only the first is read.
+	ChannelNum = Head->Channels;
+	return ReadImage(Head, IL_LUMINANCE);
+}
 
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	iseek(ColorMode, IL_SEEK_CUR);
 
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL) {
+ILboolean ReadIndexed(PSDHEAD *Head)
+{
+	if (Head->Channels != 1) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
-
-	MiscInfo = GetBigUInt();
-	iseek(MiscInfo, IL_SEEK_CUR);
+	ChannelNum = 1;
+	return ReadImage(Head, IL_COLOUR_INDEX);
+}
 
-	Compressed = GetBigUShort();
 
-	switch (Head->Channels)
-	{
-		case 4:
-			Format = IL_RGB;
-			ChannelNum = 4;
-			Head->Channels = 3;
-			break;
-		case 5:
-			Format = IL_RGBA;
-			ChannelNum = 5;
-			Head->Channels = 4;
-			break;
-		default:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
-	}
-	switch (Head->Depth)
-	{
-		case 8:
-			Type = IL_UNSIGNED_BYTE;
-			break;
-		case 16:
-			Type = IL_UNSIGNED_SHORT;
-			break;
-		default:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
-	}
-	if (!ilTexImage(Head->Width, Head->Height, 1, (ILubyte)Head->Channels, Format, Type, NULL))
-		goto cleanup_error;
-	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
-		goto cleanup_error;
-
-	Size = iCurImage->Bpc * iCurImage->Width * iCurImage->Height;
-	KChannel = (ILubyte*)ialloc(Size);
-	if (KChannel == NULL)
-		goto cleanup_error;
-	if (!GetSingleChannel(Head, KChannel, (ILboolean)Compressed))
-		goto cleanup_error;
-
-	if (Format == IL_RGB) {
-		for (i = 0, j = 0; i < iCurImage->SizeOfData; i += 3, j++) {
-			iCurImage->Data[i  ] = (iCurImage->Data[i  ] * KChannel[j]) >> 8;
-			iCurImage->Data[i+1] = (iCurImage->Data[i+1] * KChannel[j]) >> 8;
-			iCurImage->Data[i+2] = (iCurImage->Data[i+2] * KChannel[j]) >> 8;
-		}
-	}
-	else {  // IL_RGBA
-		// The KChannel array really holds the alpha channel on this one.
-		for (i = 0, j = 0; i < iCurImage->SizeOfData; i += 4, j++) {
-			iCurImage->Data[i  ] = (iCurImage->Data[i  ] * iCurImage->Data[i+3]) >> 8;
-			iCurImage->Data[i+1] = (iCurImage->Data[i+1] * iCurImage->Data[i+3]) >> 8;
-			iCurImage->Data[i+2] = (iCurImage->Data[i+2] * iCurImage->Data[i+3]) >> 8;
-			iCurImage->Data[i+3] = KChannel[j];  // Swap 'K' with alpha channel.
-		}
+ILboolean ReadRGB(PSDHEAD *Head)
+{
+	if (Head->Channels < 3) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
 	}
+	// Additional channels are accumulated as a single alpha channel, since
+	// if an image does not have a layer set as the "background", but also
+	// has a real alpha channel, there will be 5 channels (or more).
+	ChannelNum = Head->Channels;
+	return ReadImage(Head, Head->Channels == 3 ? IL_RGB : IL_RGBA);
+}
 
-	if (!ParseResources(ResourceSize, Resources))
-		goto cleanup_error;
-
-	ifree(Resources);
-	ifree(KChannel);
-
-	return IL_TRUE;
 
-cleanup_error:
-	ifree(Resources);
-	ifree(KChannel);
-	return IL_FALSE;
+ILboolean ReadCMYK(PSDHEAD *Head)
+{
+	if (Head->Channels != 4 && Head->Channels != 5) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
+	}
+	ChannelNum = Head->Channels;
+	return ReadImage(Head, Head->Channels == 4 ? IL_RGB : IL_RGBA);
 }
 
 
@@ -530,9 +390,15 @@ ILuint *GetCompChanLen(PSDHEAD *Head)
 	ILushort	*RleTable;
 	ILuint		*ChanLen, c, i, j;
 
+	if (Head->Height > 0x7FFFFFFF / ChannelNum / sizeof(ILushort)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return NULL;
+	}
 	RleTable = (ILushort*)ialloc(Head->Height * ChannelNum * sizeof(ILushort));
 	ChanLen = (ILuint*)ialloc(ChannelNum * sizeof(ILuint));
 	if (RleTable == NULL || ChanLen == NULL) {
+		ifree(RleTable);
+		ifree(ChanLen);
 		return NULL;
 	}
 
@@ -569,7 +435,7 @@ static const ILuint READ_COMPRESSED_ERROR_FILE_READ_ERROR	= 2;
 static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte* Channel)
 {
 	ILuint		i;
-	ILint		Run;
+	ILint		Run, Head;
 	ILboolean	PreCache = IL_FALSE;
 	ILbyte		HeadByte;
 
@@ -579,10 +445,17 @@ static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte*
 	if (PreCache)
 		iPreCache(ChanLen);
 	for (i = 0; i < Size; ) {
-		HeadByte = igetc();
+		Head = igetc();
+		if (Head == IL_EOF)
+		{
+			if (PreCache)
+				iUnCache();
+			return READ_COMPRESSED_ERROR_FILE_READ_ERROR;
+		}
+		HeadByte = (ILbyte)Head;
 
 		if (HeadByte >= 0) {  //  && HeadByte <= 127
-			if (i + HeadByte > Size)
+			if (i + HeadByte + 1 > Size)
 			{
 				if (PreCache)
 					iUnCache();
@@ -625,167 +498,94 @@ static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte*
 }
 
 
-ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
+// Reads the channels, which are stored one after the other.
+ILboolean PsdGetData(PSDHEAD *Head, ILboolean Compressed)
 {
-	ILuint		c, x, y, i, Size, ReadResult, NumChan;
-	ILubyte		*Channel = NULL;
-	ILushort	*ShortPtr;
+	ILuint		c, i, k, NumChan, NumPix, Bpp, Max, Result;
+	ILubyte		*Channel, *Data = iCurImage->Data;
+	ILushort	*ShortPtr, *ShortData = (ILushort*)iCurImage->Data;
 	ILuint		*ChanLen = NULL;
+	ILboolean	Is16 = (iCurImage->Bpc == 2);
 
-	// Added 01-07-2009: This is needed to correctly load greyscale and
-	//  paletted images.
-	switch (Head->Mode)
-	{
-		case 1:
-		case 2:
-			NumChan = 1;
-			break;
-		default:
-			NumChan = 3;
-	}
+	Bpp = iCurImage->Bpp;
+	Max = Is16 ? 65535 : 255;
+	NumPix = Head->Width * Head->Height;
+	NumChan = (Bpp == 1) ? 1 : ChannelNum;  // Only one channel of greyscale images
 
-	Channel = (ILubyte*)ialloc(Head->Width * Head->Height * iCurImage->Bpc);
-	if (Channel == NULL) {
+	Channel = (ILubyte*)ialloc((ILsizei)NumPix * iCurImage->Bpc);
+	if (Channel == NULL)
 		return IL_FALSE;
-	}
 	ShortPtr = (ILushort*)Channel;
 
-	// @TODO: Add support for this in, though I have yet to run across a .psd
-	//	file that uses this.
-	if (Compressed && iCurImage->Type == IL_UNSIGNED_SHORT) {
-		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+	if (Compressed) {
+		ChanLen = GetCompChanLen(Head);
+		if (ChanLen == NULL) {
+			ifree(Channel);
+			return IL_FALSE;
+		}
 	}
 
-	if (!Compressed) {
-		if (iCurImage->Bpc == 1) {
-			for (c = 0; c < NumChan; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						iCurImage->Data[y + x + c] = Channel[i];
-					}
-				}
-			}
-			// Accumulate any remaining channels into a single alpha channel
-			//@TODO: This needs to be changed for greyscale images.
-			for (; c < Head->Channels; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						float curVal = ubyte_to_float(iCurImage->Data[y + x + 3]);
-						float newVal = ubyte_to_float(Channel[i]);
-						iCurImage->Data[y + x + 3] = float_to_ubyte(curVal * newVal);
-					}
-				}
-			}
-		}
-		else {  // iCurImage->Bpc == 2
-			for (c = 0; c < NumChan; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height * 2, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				iCurImage->Bps /= 2;
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-					 #ifndef WORDS_BIGENDIAN
-						iSwapUShort(ShortPtr+i);
-					 #endif
-						((ILushort*)iCurImage->Data)[y + x + c] = ShortPtr[i];
-					}
-				}
-				iCurImage->Bps *= 2;
-			}
-			// Accumulate any remaining channels into a single alpha channel
-			//@TODO: This needs to be changed for greyscale images.
-			for (; c < Head->Channels; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height * 2, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				iCurImage->Bps /= 2;
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						float curVal = ushort_to_float(((ILushort*)iCurImage->Data)[y + x + 3]);
-						float newVal = ushort_to_float(ShortPtr[i]);
-						((ILushort*)iCurImage->Data)[y + x + 3] = float_to_ushort(curVal * newVal);
-					}
-				}
-				iCurImage->Bps *= 2;
-			}
+	// Start with a solid alpha channel.
+	if (Bpp == 4) {
+		for (i = 0; i < NumPix; i++) {
+			if (Is16)
+				ShortData[i * 4 + 3] = 65535;
+			else
+				Data[i * 4 + 3] = 255;
 		}
 	}
-	else {
-		ChanLen = GetCompChanLen(Head);
 
-		Size = Head->Width * Head->Height;
-		for (c = 0; c < NumChan; c++) {
-			ReadResult = ReadCompressedChannel(ChanLen[c], Size, Channel);
-			if (ReadResult == READ_COMPRESSED_ERROR_FILE_CORRUPT)
-				goto file_corrupt;
-			else if (ReadResult == READ_COMPRESSED_ERROR_FILE_READ_ERROR)
-				goto file_read_error;
-
-			i = 0;
-			for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-				for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-					iCurImage->Data[y + x + c] = Channel[i];
-				}
-			}
+	for (c = 0; c < NumChan; c++) {
+		if (Compressed) {
+			Result = ReadCompressedChannel(ChanLen[c], NumPix, Channel);
+			if (Result == READ_COMPRESSED_ERROR_FILE_CORRUPT)
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+			else if (Result == READ_COMPRESSED_ERROR_FILE_READ_ERROR)
+				ilSetError(IL_FILE_READ_ERROR);
+			if (Result != READ_COMPRESSED_SUCCESS)
+				goto error;
 		}
+		else if (iread(Channel, NumPix * iCurImage->Bpc, 1) != 1)
+			goto error;
 
-		// Initialize the alpha channel to solid
-		//@TODO: This needs to be changed for greyscale images.
-		if (Head->Channels >= 4) {
-			for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-				for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp) {
-					iCurImage->Data[y + x + 3] = 255;
-				}
+		for (i = 0; i < NumPix; i++) {
+			ILuint Val, First, Last;
+
+			if (Is16) {
+				BigUShort(ShortPtr + i);
+				Val = ShortPtr[i];
+			}
+			else
+				Val = Channel[i];
+
+			First = Last = i * Bpp + c;
+			if (c == 3 && Head->Mode == 4) {  // The black of CMYK darkens the colours.
+				First = i * Bpp;
+				Last = First + 2;
 			}
-					
-			for (; c < Head->Channels; c++) {
-				ReadResult = ReadCompressedChannel(ChanLen[c], Size, Channel);
-				if (ReadResult == READ_COMPRESSED_ERROR_FILE_CORRUPT)
-					goto file_corrupt;
-				else if (ReadResult == READ_COMPRESSED_ERROR_FILE_READ_ERROR)
-					goto file_read_error;
-
-				i = 0;
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						float curVal = ubyte_to_float(iCurImage->Data[y + x + 3]);
-						float newVal = ubyte_to_float(Channel[i]);
-						iCurImage->Data[y + x + 3] = float_to_ubyte(curVal * newVal);
-					}
+			else if (c >= 3)  // All other channels make up alpha.
+				First = Last = i * Bpp + 3;
+
+			for (k = First; k <= Last; k++) {
+				if (c < 3) {
+					if (Is16)
+						ShortData[k] = (ILushort)Val;
+					else
+						Data[k] = (ILubyte)Val;
 				}
+				else if (Is16)
+					ShortData[k] = (ILushort)((ShortData[k] * Val + Max / 2) / Max);
+				else
+					Data[k] = (ILubyte)((Data[k] * Val + Max / 2) / Max);
 			}
 		}
-
-		ifree(ChanLen);
 	}
 
-	ifree(Channel);
-
-	return IL_TRUE;
-
-file_corrupt:
 	ifree(ChanLen);
 	ifree(Channel);
-	ilSetError(IL_ILLEGAL_FILE_VALUE);
-	return IL_FALSE;
+	return IL_TRUE;
 
-file_read_error:
+error:
 	ifree(ChanLen);
 	ifree(Channel);
 	return IL_FALSE;
@@ -795,14 +595,9 @@ file_read_error:
 ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 {
 	ILushort	ID;
-	ILubyte		NameLen;
+	ILuint		NameLen;
 	ILuint		Size;
 
-	if (Resources == NULL) {
-		ilSetError(IL_INTERNAL_ERROR);
-		return IL_FALSE;
-	}
-
 	while (ResourceSize > 13) {  // Absolutely has to be larger than this.
 		if (strncmp("8BIM", (const char*)Resources, 4)) {
 			//return IL_FALSE;
@@ -810,17 +605,19 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 		}
 		Resources += 4;
 
-		ID = *((ILushort*)Resources);
+		memcpy(&ID, Resources, 2);
 		BigUShort(&ID);
 		Resources += 2;
 
 		NameLen = *Resources++;
 		// NameLen + the byte it occupies must be padded to an even number, so NameLen must be odd.
 		NameLen = NameLen + (NameLen & 1 ? 0 : 1);
+		if (4 + 2 + 1 + NameLen + 4 > ResourceSize)
+			return IL_TRUE;
 		Resources += NameLen;
 
 		// Get the resource data size.
-		Size = *((ILuint*)Resources);
+		memcpy(&Size, Resources, 4);
 		BigUInt(&Size);
 		Resources += 4;
 
@@ -833,6 +630,8 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
 				}
+				if (Size == 0 || iCurImage->Profile)
+					break;
 				iCurImage->Profile = (ILubyte*)ialloc(Size);
 				if (iCurImage->Profile == NULL) {
 					return IL_FALSE;
@@ -845,6 +644,8 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 				break;
 		}
 
+		if (Size >= ResourceSize)
+			return IL_TRUE;
 		if (Size & 1)  // Must be an even number.
 			Size++;
 		ResourceSize -= Size;
@@ -855,51 +656,6 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 }
 
 
-ILboolean GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed)
-{
-	ILuint		i;
-	ILushort	*ShortPtr;
-	ILbyte		HeadByte;
-	ILint		Run;
-
-	ShortPtr = (ILushort*)Buffer;
-
-	if (!Compressed) {
-		if (iCurImage->Bpc == 1) {
-			if (iread(Buffer, Head->Width * Head->Height, 1) != 1)
-				return IL_FALSE;
-		}
-		else {  // iCurImage->Bpc == 2
-			if (iread(Buffer, Head->Width * Head->Height * 2, 1) != 1)
-				return IL_FALSE;
-		}
-	}
-	else {
-		for (i = 0; i < Head->Width * Head->Height; ) {
-			HeadByte = igetc();
-
-			if (HeadByte >= 0) {  //  && HeadByte <= 127
-				if (iread(Buffer + i, HeadByte + 1, 1) != 1)
-					return IL_FALSE;
-				i += HeadByte + 1;
-			}
-			if (HeadByte >= -127 && HeadByte <= -1) {
-				Run = igetc();
-				if (Run == IL_EOF)
-					return IL_FALSE;
-				memset(Buffer + i, Run, -HeadByte + 1);
-				i += -HeadByte + 1;
-			}
-			if (HeadByte == -128)
-			{ }  // Noop
-		}
-	}
-
-	return IL_TRUE;
-}
-
-
-
 //! Writes a Psd file
 ILboolean ilSavePsd(const ILstring FileName)
 {
@@ -957,11 +713,12 @@ ILboolean iSavePsdInternal()
 {
 	ILubyte		*Signature = (ILubyte*)"8BPS";
 	ILimage		*TempImage;
-	ILpal		*TempPal;
-	ILuint		c, i;
-	ILubyte		*TempData;
-	ILushort	*ShortPtr;
+	ILpal		*TempPal = NULL;
+	ILuint		c, i, NumPix;
+	ILubyte		*TempData = NULL;
+	ILushort	*ShortPtr, Mode;
 	ILenum		Format, Type;
+	ILboolean	bRet = IL_FALSE;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -969,69 +726,71 @@ ILboolean iSavePsdInternal()
 	}
 
 	Format = iCurImage->Format;
-	Type = iCurImage->Type;
-
-	// All of these comprise the actual signature.
-	iwrite(Signature, 1, 4);
-	SaveBigShort(1);
-	SaveBigInt(0);
-	SaveBigShort(0);
-
-	SaveBigShort(iCurImage->Bpp);
-	SaveBigInt(iCurImage->Height);
-	SaveBigInt(iCurImage->Width);
-	if (iCurImage->Bpc > 2)
-		Type = IL_UNSIGNED_SHORT;
-
-	if (iCurImage->Format == IL_BGR)
-		Format = IL_RGB;
-	else if (iCurImage->Format == IL_BGRA)
-		Format = IL_RGBA;
-
-	if (Format != iCurImage->Format || Type != iCurImage->Type) {
-		TempImage = iConvertImage(iCurImage, Format, Type);
-		if (TempImage == NULL)
-			return IL_FALSE;
-	}
-	else {
-		TempImage = iCurImage;
-	}
-	SaveBigShort((ILushort)(TempImage->Bpc * 8));
+	Type = (iCurImage->Bpc == 1) ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT;
 
 	// @TODO:  Put the other formats here.
-	switch (TempImage->Format)
+	switch (Format)
 	{
 		case IL_COLOUR_INDEX:
-			SaveBigShort(2);
+			Mode = 2;
 			break;
 		case IL_LUMINANCE:
-			SaveBigShort(1);
+			Mode = 1;
 			break;
 		case IL_RGB:
-		case IL_RGBA:
-			SaveBigShort(3);
+		case IL_BGR:
+			Format = IL_RGB;
+			Mode = 3;
 			break;
-		default:
-			ilSetError(IL_INTERNAL_ERROR);
+		default:  // Everything with alpha
+			Format = IL_RGBA;
+			Mode = 3;
+	}
+
+	if (Format != iCurImage->Format || Type != iCurImage->Type) {
+		TempImage = iConvertImage(iCurImage, Format, Type);
+		if (TempImage == NULL)
 			return IL_FALSE;
 	}
+	else {
+		TempImage = iCurImage;
+	}
 
-	if (TempImage->Format == IL_COLOUR_INDEX) {
-		// @TODO: We're currently making a potentially fatal assumption that
-		//	iConvertImage was not called if the format is IL_COLOUR_INDEX.
+	if (Format == IL_COLOUR_INDEX) {
 		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
 		if (TempPal == NULL)
-			return IL_FALSE;
+			goto cleanup;
+	}
+	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
+		TempData = iGetFlipped(TempImage);
+		if (TempData == NULL)
+			goto cleanup;
+	}
+	else {
+		TempData = TempImage->Data;
+	}
+
+	// All of these comprise the actual signature.
+	iwrite(Signature, 1, 4);
+	SaveBigShort(1);
+	SaveBigInt(0);
+	SaveBigShort(0);
+
+	SaveBigShort(TempImage->Bpp);
+	SaveBigInt(TempImage->Height);
+	SaveBigInt(TempImage->Width);
+	SaveBigShort((ILushort)(TempImage->Bpc * 8));
+	SaveBigShort(Mode);
+
+	if (TempPal) {
 		SaveBigInt(768);
 
-		// Have to save the palette in a planar format.
+		// Have to save the palette in a planar format, with 256 entries.
 		for (c = 0; c < 3; c++) {
-			for (i = c; i < TempPal->PalSize; i += 3) {
-				iputc(TempPal->Palette[i]);
+			for (i = 0; i < 256; i++) {
+				iputc(i * 3 + c < TempPal->PalSize ? TempPal->Palette[i * 3 + c] : 0);
 			}
 		}
-
-		ifree(TempPal->Palette);
 	}
 	else {
 		SaveBigInt(0);  // No colour mode data.
@@ -1043,43 +802,29 @@ ILboolean iSavePsdInternal()
 
 	// @TODO:  Add RLE compression.
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
-		TempData = iGetFlipped(TempImage);
-		if (TempData == NULL) {
-			ilCloseImage(TempImage);
-			return IL_FALSE;
+	NumPix = TempImage->Width * TempImage->Height;
+	ShortPtr = (ILushort*)TempData;
+	for (c = 0; c < TempImage->Bpp; c++) {
+		for (i = 0; i < NumPix; i++) {
+			if (TempImage->Bpc == 1)
+				iputc(TempData[i * TempImage->Bpp + c]);
+			else  // TempImage->Bpc == 2
+				SaveBigUShort(ShortPtr[i * TempImage->Bpp + c]);
 		}
 	}
-	else {
-		TempData = TempImage->Data;
-	}
+	bRet = IL_TRUE;
 
-	if (TempImage->Bpc == 1) {
-		for (c = 0; c < TempImage->Bpp; c++) {
-			for (i = c; i < TempImage->SizeOfPlane; i += TempImage->Bpp) {
-				iputc(TempData[i]);
-			}
-		}
-	}
-	else {  // TempImage->Bpc == 2
-		ShortPtr = (ILushort*)TempData;
-		TempImage->SizeOfPlane /= 2;
-		for (c = 0; c < TempImage->Bpp; c++) {
-			for (i = c; i < TempImage->SizeOfPlane; i += TempImage->Bpp) {
-				SaveBigUShort(ShortPtr[i]);
-			}
-		}
-		TempImage->SizeOfPlane *= 2;
+cleanup:
+	if (TempPal) {
+		ifree(TempPal->Palette);
+		ifree(TempPal);
 	}
-
-	if (TempData != TempImage->Data)
+	if (TempData && TempData != TempImage->Data)
 		ifree(TempData);
-
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
 
-
-	return IL_TRUE;
+	return bRet;
 }
 
 
-- 
2.43.0


From 18c38f1512fcbb487e055dd87f4c4c2f8a67b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 050/161] fix: TIFF saver: types and formats that the file
 cannot hold were written as raw bits

---
 DevIL/src-IL/src/il_tiff.cpp | 44 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 108e212..e7f846b 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -955,14 +955,13 @@ ILuint ilSaveTiffL(void *Lump, ILuint Size)
 // Internal function used to save the Tiff.
 ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 {
-	ILenum	Format;
+	ILenum	Format, Type;
 	ILenum	Compression;
 	ILuint	ixLine;
 	TIFF	*File;
 	char	Description[512];
 	ILimage *TempImage;
 	const char	*str;
-	ILboolean SwapColors;
 	ILubyte *OldData;
 
 	if(iCurImage == NULL) {
@@ -983,12 +982,31 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	else
 		Compression = COMPRESSION_NONE;
 
-	if (iCurImage->Format == IL_COLOUR_INDEX) {
-		if (ilGetBppPal(iCurImage->Pal.PalType) == 4)  // Preserve the alpha.
-			TempImage = iConvertImage(iCurImage, IL_RGBA, IL_UNSIGNED_BYTE);
-		else
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
-		
+	// Only these formats, with 8 or 16 bits per channel, can be written (and read back).
+	Type = iCurImage->Bpc == 1 ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT;
+	switch (iCurImage->Format)
+	{
+		case IL_COLOUR_INDEX:
+			// Preserve the alpha.
+			Format = ilGetBppPal(iCurImage->Pal.PalType) == 4 ? IL_RGBA : IL_RGB;
+			break;
+		case IL_RGB:
+		case IL_BGR:
+			Format = IL_RGB;
+			break;
+		case IL_LUMINANCE:
+			Format = IL_LUMINANCE;
+			break;
+		case IL_ALPHA:
+		case IL_LUMINANCE_ALPHA:
+			Format = Type == IL_UNSIGNED_BYTE ? IL_LUMINANCE_ALPHA : IL_RGBA;
+			break;
+		default:
+			Format = IL_RGBA;
+	}
+
+	if (iCurImage->Format != Format || iCurImage->Type != Type) {
+		TempImage = iConvertImage(iCurImage, Format, Type);
 		if (TempImage == NULL) {
 			return IL_FALSE;
 		}
@@ -1084,17 +1102,10 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 				  TempImage->Origin == IL_ORIGIN_UPPER_LEFT ? ORIENTATION_TOPLEFT : ORIENTATION_BOTLEFT);
 	 */
 
-	Format = TempImage->Format;
-	SwapColors = (Format == IL_BGR || Format == IL_BGRA);
-	if (SwapColors)
- 		ilSwapColours();
-
 	for (ixLine = 0; ixLine < TempImage->Height; ++ixLine) {
 		if (TIFFWriteScanline(File, TempImage->Data + ixLine * TempImage->Bps, ixLine, 0) < 0) {
 			TIFFClose(File);
 			ilSetError(IL_LIB_TIFF_ERROR);
-			if (SwapColors)
-				ilSwapColours();
 			if (TempImage->Data != OldData) {
 				ifree( TempImage->Data );
 				TempImage->Data = OldData;
@@ -1105,9 +1116,6 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 		}
 	}
 
-	if (SwapColors)
- 		ilSwapColours();
-
 	if (TempImage->Data != OldData) {
 		ifree(TempImage->Data);
 		TempImage->Data = OldData;
-- 
2.43.0


From 18d4f871f1b035488505dc7e99b045947538844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 051/161] fix: BMP saver: leaks, wrong header when saving into
 the middle of a stream, alpha dropped from luminance-alpha images

---
 DevIL/src-IL/src/il_bmp.cpp | 158 ++++++++++++++----------------------
 1 file changed, 59 insertions(+), 99 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 0ba5ef0..1378206 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -896,86 +896,69 @@ ILuint ilSaveBmpL(void *Lump, ILuint Size)
 // Internal function used to save the .bmp.
 ILboolean iSaveBitmapInternal()
 {
-	//int compress_rle8 = ilGetInteger(IL_BMP_RLE);
-	int compress_rle8 = IL_FALSE; // disabled BMP RLE compression. broken
-	ILuint	FileSize, i, PadSize, Padding = 0;
-	ILimage	*TempImage = NULL;
-	ILpal	*TempPal;
-	ILubyte	*TempData;
+	// BMP RLE compression (IL_BMP_RLE) is disabled, because it is broken.
+	ILuint	i, PadSize, PalSize = 0, Padding = 0;
+	ILenum	Format;
+	ILimage	*TempImage;
+	ILpal	*TempPal = NULL;
+	ILubyte	*TempData = NULL;
+	ILboolean bRet = IL_FALSE;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	iputc('B');  // Comprises the
-	iputc('M');  //  "signature"
-	
-	SaveLittleUInt(0);  // Will come back and change later in this function (filesize)
-	SaveLittleUInt(0);  // Reserved
-
-	if (compress_rle8 == IL_TRUE)
+	// @TODO LUMINANCE converted to BGR insteaf of beign saved to luminance
+	switch (iCurImage->Format)
 	{
-		TempImage = iConvertImage(iCurImage, IL_COLOR_INDEX, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL)
-			return IL_FALSE;
-		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_BGR32);
-		if (TempPal == NULL)
-		{
-			ilCloseImage(TempImage);
-			return IL_FALSE;
-		}
-	}
-
-	// If the current image has a palette, take care of it
-	TempPal = &iCurImage->Pal;
-	if( iCurImage->Pal.PalSize && iCurImage->Pal.Palette && iCurImage->Pal.PalType != IL_PAL_NONE ) {
-		// If the palette in .bmp format, write it directly
-		if (iCurImage->Pal.PalType == IL_PAL_BGR32) {
-			TempPal = &iCurImage->Pal;
-		} else {
-			TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_BGR32);
-			if (TempPal == NULL) {
-				return IL_FALSE;
-			}
-		}
+		case IL_COLOUR_INDEX:
+			Format = IL_COLOUR_INDEX;
+			break;
+		case IL_RGBA:
+		case IL_BGRA:
+		case IL_LUMINANCE_ALPHA:
+		case IL_ALPHA:
+			Format = IL_BGRA;
+			break;
+		default:
+			Format = IL_BGR;
 	}
-
-	SaveLittleUInt(54 + TempPal->PalSize);  // Offset of the data
-	
-	//Changed 20040923: moved this block above writing of
-	//BITMAPINFOHEADER, so that the written header refers to
-	//TempImage instead of the original image
-	
-	// @TODO LUMINANCE converted to BGR insteaf of beign saved to luminance
-	if (iCurImage->Format != IL_BGR && iCurImage->Format != IL_BGRA && iCurImage->Format != IL_COLOUR_INDEX) {
-		if (iCurImage->Format == IL_RGBA) {
-			TempImage = iConvertImage(iCurImage, IL_BGRA, IL_UNSIGNED_BYTE);
-		} else {
-			TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);
-		}
-		if (TempImage == NULL)
-			return IL_FALSE;
-	} else if (iCurImage->Bpc > 1) {
-		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
+	if (iCurImage->Format != Format || iCurImage->Bpc > 1) {
+		TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
 		if (TempImage == NULL)
 			return IL_FALSE;
 	} else {
 		TempImage = iCurImage;
 	}
 
+	// If the image has a palette, take care of it
+	if (Format == IL_COLOUR_INDEX) {
+		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_BGR32);
+		if (TempPal == NULL)
+			goto cleanup;
+		PalSize = TempPal->PalSize;
+	}
+
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
-		if (TempData == NULL) {
-			ilCloseImage(TempImage);
-			return IL_FALSE;
-		}
+		if (TempData == NULL)
+			goto cleanup;
 	} else {
 		TempData = TempImage->Data;
 	}
 
+	PadSize = (4 - (TempImage->Bps % 4)) % 4;
+
+	iputc('B');  // Comprises the
+	iputc('M');  //  "signature"
+
+	SaveLittleUInt(54 + PalSize + (TempImage->Bps + PadSize) * TempImage->Height);  // Size of the file
+	SaveLittleUInt(0);  // Reserved
+	SaveLittleUInt(54 + PalSize);  // Offset of the data
+
 	SaveLittleUInt(0x28);  // Header size
-	SaveLittleUInt(iCurImage->Width);
+	SaveLittleUInt(TempImage->Width);
 
 	// Removed because some image viewers don't like the negative height.
 	// even if it is standard. @TODO should be enabled or disabled
@@ -987,61 +970,38 @@ ILboolean iSaveBitmapInternal()
 
 	SaveLittleUShort(1);  // Number of planes
 	SaveLittleUShort((ILushort)((ILushort)TempImage->Bpp << 3));  // Bpp
-	if( compress_rle8 == IL_TRUE ) {
-		SaveLittleInt(1); // rle8 compression
-	} else {
-		SaveLittleInt(0);
-	}
+	SaveLittleInt(0);
 	SaveLittleInt(0);  // Size of image (Obsolete)
 	SaveLittleInt(0);  // (Obsolete)
 	SaveLittleInt(0);  // (Obsolete)
-
-	if (TempImage->Pal.PalType != IL_PAL_NONE) {
-		SaveLittleInt(ilGetInteger(IL_PALETTE_NUM_COLS));  // Num colours used
-	} else {
-		SaveLittleInt(0);
-	}
+	SaveLittleInt(PalSize / 4);  // Num colours used
 	SaveLittleInt(0);  // Important colour (none)
 
-	iwrite(TempPal->Palette, 1, TempPal->PalSize);
+	if (TempPal)
+		iwrite(TempPal->Palette, 1, PalSize);
 
-	
-	if( compress_rle8 == IL_TRUE ) {
-		//@TODO compress and save
-		ILubyte *Dest = (ILubyte*)ialloc((long)((double)TempImage->SizeOfPlane*130/127));
-		FileSize = ilRleCompress(TempImage->Data,TempImage->Width,TempImage->Height,
-						TempImage->Depth,TempImage->Bpp,Dest,IL_BMPCOMP,NULL);
-		iwrite(Dest,1,FileSize);
-	} else {
-		PadSize = (4 - (TempImage->Bps % 4)) % 4;
-		// No padding, so write data directly.
-		if (PadSize == 0) {
-			iwrite(TempData, 1, TempImage->SizeOfPlane);
-		} else {  // Odd width, so we must pad each line.
-			for (i = 0; i < TempImage->SizeOfPlane; i += TempImage->Bps) {
-				iwrite(TempData + i, 1, TempImage->Bps); // Write data
-				iwrite(&Padding, 1, PadSize); // Write pad byte(s)
-			}
+	// No padding, so write data directly.
+	if (PadSize == 0) {
+		iwrite(TempData, 1, TempImage->SizeOfPlane);
+	} else {  // Odd width, so we must pad each line.
+		for (i = 0; i < TempImage->Height; i++) {
+			iwrite(TempData + (ILsizei)i * TempImage->Bps, 1, TempImage->Bps); // Write data
+			iwrite(&Padding, 1, PadSize); // Write pad byte(s)
 		}
 	}
-	
-	// Write the filesize
-	FileSize = itellw();
-	iseekw(2, IL_SEEK_SET);
-	SaveLittleUInt(FileSize);
+	bRet = IL_TRUE;
 
-	if (TempPal != &iCurImage->Pal) {
+cleanup:
+	if (TempPal) {
 		ifree(TempPal->Palette);
 		ifree(TempPal);
 	}
-	if (TempData != TempImage->Data)
+	if (TempData && TempData != TempImage->Data)
 		ifree(TempData);
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
-	
-	iseekw(FileSize, IL_SEEK_SET);
-	
-	return IL_TRUE;
+
+	return bRet;
 }
 
 
-- 
2.43.0


From 3f65c2e328e457655ac87f437e7555a48982d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 052/161] fix: BMP loader: palette sizes, bit field masks,
 skipped RLE pixels, malformed headers

---
 DevIL/src-IL/include/il_bmp.h |  6 ++-
 DevIL/src-IL/src/il_bmp.cpp   | 99 +++++++++++++++++------------------
 2 files changed, 52 insertions(+), 53 deletions(-)

diff --git a/DevIL/src-IL/include/il_bmp.h b/DevIL/src-IL/include/il_bmp.h
index 30e5210..46e1a07 100644
--- a/DevIL/src-IL/include/il_bmp.h
+++ b/DevIL/src-IL/include/il_bmp.h
@@ -94,10 +94,14 @@ INLINE void GetShiftFromMask(const ILuint Mask, ILuint * CONST_RESTRICT ShiftLef
 	*ShiftRight = i;
 
 	// Temp is preserved, so use it again:
-	for( i = 0; i < 8; i++, Temp >>= 1 ) {
+	for( i = 0; i < 32; i++, Temp >>= 1 ) {
 		if( !(Temp & 1) )
 			break;
 	}
+	if( i > 8 ) {  // Only the upper 8 bits fit.
+		*ShiftRight += i - 8;
+		i = 8;
+	}
 	*ShiftLeft = 8 - i;
 
 	return;
diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 1378206..1fee517 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -137,7 +137,7 @@ ILboolean iCheckBmp (const BMPHEAD * CONST_RESTRICT Header)
 	//if ((Header->bfType != ('B'|('M'<<8))) || ((Header->biSize != 0x28) && (Header->biSize != 0x0C)))
 	if ((Header->bfType != ('B'|('M'<<8))) || (Header->biSize != 0x28))
 		return IL_FALSE;
-	if (Header->biHeight == 0 || Header->biWidth < 1)
+	if (Header->biHeight == 0 || Header->biHeight < -0x7FFFFFFF || Header->biWidth < 1)
 		return IL_FALSE;
 	if (Header->biPlanes > 1)  // Not sure...
 		return IL_FALSE;
@@ -267,6 +267,30 @@ ILboolean iLoadBitmapInternal()
 }
 
 
+// Reads the palette of a .bmp with at most 8 bits per pixel
+static ILboolean iReadBmpPal(BMPHEAD * Header)
+{
+	ILuint Num = 1 << Header->biBitCount, Used = Num;
+
+	// biClrUsed is 0 when all colours are used.
+	if (Header->biClrUsed > 0 && (ILuint)Header->biClrUsed < Num)
+		Used = Header->biClrUsed;
+	if (Header->biBitCount == 8)
+		Num = Used;
+
+	iCurImage->Pal.Palette = (ILubyte*)icalloc(Num, 4);
+	if (iCurImage->Pal.Palette == NULL)
+		return IL_FALSE;
+	iCurImage->Pal.PalType = IL_PAL_BGR32;
+	iCurImage->Pal.PalSize = Num * 4;
+
+	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
+	if (iread(iCurImage->Pal.Palette, 1, Used * 4) != Used * 4)
+		return IL_FALSE;
+	return IL_TRUE;
+}
+
+
 // Reads an uncompressed .bmp
 //	One of the absolute ugliest functions I've ever written!
 ILboolean ilReadUncompBmp(BMPHEAD * Header)
@@ -296,30 +320,9 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 	{
 		case 1:
 			//iCurImage->Format = IL_LUMINANCE;
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Pal.PalType = IL_PAL_BGR32;
-			iCurImage->Pal.PalSize = 2 * 4;
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (iCurImage->Pal.Palette == NULL) {
-				return IL_FALSE;
-			}
-			break;
-
 		case 4:
 		case 8:
 			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Pal.PalType = IL_PAL_BGR32;
-			
-			// if there are 256 colors biClrUsed is 0
-			iCurImage->Pal.PalSize = Header->biClrUsed ? 
-					Header->biClrUsed * 4 : 256 * 4;
-			
-			if (Header->biBitCount == 4)  // biClrUsed is 0 for 4-bit bitmaps
-				iCurImage->Pal.PalSize = 16 * 4;
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (iCurImage->Pal.Palette == NULL) {
-				return IL_FALSE;
-			}
 			break;
 
 		case 16:
@@ -333,14 +336,6 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 			return IL_FALSE;
 	}
 
-	// A height of 0 is illegal
-	if (Header->biHeight == 0) {
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		if (iCurImage->Pal.Palette)
-			ifree(iCurImage->Pal.Palette);
-		return IL_FALSE;
-	}
-
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
 	if (Header->biHeight < 0) {
@@ -351,8 +346,7 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 	}
 
 	// Read the palette
-	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
-	if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
+	if (Header->biBitCount <= 8 && !iReadBmpPal(Header))
 		return IL_FALSE;
 
 	// Seek to the data from the "beginning" of the file
@@ -432,7 +426,7 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 			bShiftL = 3;
 			if (Header->biCompression == 3) //bitfields
 			{
-				iseek(Header->bfDataOff - 12, IL_SEEK_SET); //seek to bitfield data
+				iseek(sizeof(BMPHEAD), IL_SEEK_SET); //seek to bitfield data
 				iread(&rMask, 4, 1);
 				iread(&gMask, 4, 1);
 				iread(&bMask, 4, 1);
@@ -442,6 +436,7 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 				GetShiftFromMask(rMask, &rShiftL, &rShiftR);
 				GetShiftFromMask(gMask, &gShiftL, &gShiftR);
 				GetShiftFromMask(bMask, &bShiftL, &bShiftR);
+				iseek(Header->bfDataOff, IL_SEEK_SET);
 			}
 
 			k = 0;
@@ -508,7 +503,7 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 			bShiftL = 0;
 			if (Header->biCompression == 3) //bitfields
 			{
-				iseek(Header->bfDataOff - 12, IL_SEEK_SET); //seek to bitfield data
+				iseek(sizeof(BMPHEAD), IL_SEEK_SET); //seek to bitfield data
 				iread(&rMask, 4, 1);
 				iread(&gMask, 4, 1);
 				iread(&bMask, 4, 1);
@@ -518,6 +513,7 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 				GetShiftFromMask(rMask, &rShiftL, &rShiftR);
 				GetShiftFromMask(gMask, &gShiftL, &gShiftR);
 				GetShiftFromMask(bMask, &bShiftL, &bShiftR);
+				iseek(Header->bfDataOff, IL_SEEK_SET);
 			}
 
 			//TODO: win98 supports per-pixel alpha, so
@@ -565,13 +561,7 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 		return IL_FALSE;
 
 	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalType = IL_PAL_BGR32;
-	iCurImage->Pal.PalSize = Header->biClrUsed * 4;  // 256 * 4 for most images
-	if (iCurImage->Pal.PalSize == 0)
-		iCurImage->Pal.PalSize = 256 * 4;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
-		return IL_FALSE;
+	memset(iCurImage->Data, 0, iCurImage->SizeOfData);  // For skipped pixels
 
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
@@ -579,8 +569,11 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 		 IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
 	
 	// Read the palette
-	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1)
+	if (Header->biBitCount != 8) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	if (!iReadBmpPal(Header))
 		return IL_FALSE;
 
 	// Seek to the data from the "beginning" of the file
@@ -646,11 +639,7 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
 	}
 
 	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalType = IL_PAL_BGR32;
-	iCurImage->Pal.PalSize = 16 * 4; //Header->biClrUsed * 4;  // 16 * 4 for most images
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
-		return IL_FALSE;
+	memset(iCurImage->Data, 0, iCurImage->SizeOfData);  // For skipped pixels
 
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
@@ -658,9 +647,11 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
 		 IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
 
 	// Read the palette
-	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
-
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1)
+	if (Header->biBitCount != 4) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	if (!iReadBmpPal(Header))
 		return IL_FALSE;
 
 	// Seek to the data from the "beginning" of the file
@@ -816,10 +807,14 @@ ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 		if (iread(iCurImage->Pal.Palette, 1, 256 * 3) != 256*3)
 			return IL_FALSE;
 	}
-	else { //has to be 24 bpp
+	else if (Header->cBitCount == 24) {
 		if (!ilTexImage(Header->cx, Header->cy, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
 			return IL_FALSE;
 	}
+	else {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
 	iseek(Header->DataOff, IL_SEEK_SET);
-- 
2.43.0


From df92833ff8b57e1aec6969902da8094e8b7dfb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 053/161] fix: RLE compressed TGA saves overrun the buffer of
 narrow images; SGI RLE saves report the wrong size

---
 DevIL/src-IL/src/il_sgi.cpp   | 8 +++++---
 DevIL/src-IL/src/il_targa.cpp | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index d265a5e..29ea5e7 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -663,11 +663,11 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 	ILuint	c, i, y, j;
 	ILubyte	*ScanLine = NULL, *CompLine = NULL;
 	ILuint	*StartTable = NULL, *LenTable = NULL;
-	ILuint	TableOff, DataOff = 0;
+	ILuint	TableOff, EndOff, DataOff;
 
 	ScanLine = (ILubyte*)ialloc(w);
 	CompLine = (ILubyte*)ialloc(w * 2 + 1);  // Absolute worst case.
-	StartTable = (ILuint*)ialloc(h * numChannels * sizeof(ILuint));
+	StartTable = (ILuint*)icalloc(h * numChannels, sizeof(ILuint));
 	LenTable = (ILuint*)icalloc(h * numChannels, sizeof(ILuint));
 	if (!ScanLine || !CompLine || !StartTable || !LenTable) {
 		ifree(ScanLine);
@@ -682,7 +682,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 	iwrite(StartTable, sizeof(ILuint), h * numChannels);
 	iwrite(LenTable, sizeof(ILuint), h * numChannels);
 
-	DataOff = itellw();
+	DataOff = 512 + h * numChannels * 2 * sizeof(ILuint);  // From the start of the header
 	for (c = 0; c < numChannels; c++) {
 		for (y = 0; y < h; y++) {
 			i = y * bps + c;
@@ -695,6 +695,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 		}
 	}
 
+	EndOff = itellw();
 	iseekw(TableOff, IL_SEEK_SET);
 
 	j = h * numChannels;
@@ -709,6 +710,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 
 	iwrite(StartTable, sizeof(ILuint), h * numChannels);
 	iwrite(LenTable, sizeof(ILuint), h * numChannels);
+	iseekw(EndOff, IL_SEEK_SET);
 
 	ifree(ScanLine);
 	ifree(CompLine);
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 134736d..cd9fe0e 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -752,7 +752,7 @@ ILboolean iSaveTargaInternal()
 	if (!Compress)
 		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfData);
 	else {
-		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
+		Rle = (ILubyte*)ialloc((ILsizei)TempImage->SizeOfData * 2 + 1);	// max: a packet head for each pixel
 		if (Rle == NULL)
 			goto cleanup;
 		RleLen = ilRleCompress((unsigned char*)TempData, TempImage->Width, TempImage->Height,
-- 
2.43.0


From 86f4ede82116e19d9ea33ad0a725e5be4645bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 054/161] fix: PNM: 1-bit images inverted, 16-bit and scaled
 maxima wrong, overruns and lost images on bad data; HDR: colours brightened
 by each load

---
 DevIL/src-IL/include/il_pnm.h |  10 +-
 DevIL/src-IL/src/il_hdr.cpp   |   6 +-
 DevIL/src-IL/src/il_pnm.cpp   | 571 ++++++++++------------------------
 3 files changed, 175 insertions(+), 412 deletions(-)

diff --git a/DevIL/src-IL/include/il_pnm.h b/DevIL/src-IL/include/il_pnm.h
index 4ac1d0f..64dcee3 100644
--- a/DevIL/src-IL/include/il_pnm.h
+++ b/DevIL/src-IL/include/il_pnm.h
@@ -45,12 +45,10 @@ ILboolean	iIsValidPnm(void);
 ILboolean	iCheckPnm(char Header[2]);
 ILboolean	iLoadPnmInternal(void);
 ILboolean	iSavePnmInternal(void);
-ILimage		*ilReadAsciiPpm(PPMINFO *Info);
-ILimage		*ilReadBinaryPpm(PPMINFO *Info);
-ILimage		*ilReadBitPbm(PPMINFO *Info);
-ILboolean	ilReadPam(void);
-ILboolean	iGetWord(ILboolean);
-void		PbmMaximize(ILimage *Image);
+ILint		iGetNonSpace(void);
+ILboolean	iGetWord(char *Word, ILuint Size);
+ILboolean	iGetNumber(ILuint *Number);
+ILboolean	iGetPamHead(PPMINFO *Info);
 ILint		DecodeTupleType(string &TupleStr);
 
 
diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index e5b47a2..47c9579 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -248,9 +248,9 @@ ILboolean iLoadHdrInternal()
 			ff = (ILfloat*)ee;
 			t = *ff;
 			
-			data[0] = (r/255.0f)*t;
-			data[1] = (g/255.0f)*t;
-			data[2] = (b/255.0f)*t;
+			data[0] = (r/256.0f)*t;
+			data[1] = (g/256.0f)*t;
+			data[2] = (b/256.0f)*t;
 			data += 3;
 		}
 	}
diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index dc87cc9..ebafade 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -25,11 +25,8 @@ using namespace std;
 
 // According to the ppm specs, it's 70, but PSP
 //  likes to output longer lines.
-#define MAX_BUFFER 180  
 
 //@TODO: Get rid of these globals
-static ILbyte LineBuffer[MAX_BUFFER];
-static ILbyte SmallBuff[MAX_BUFFER];
 
 // Can't read direct bits from a lump yet
 ILboolean IsLump = IL_FALSE;
@@ -167,11 +164,13 @@ ILboolean ilLoadPnmL(const void *Lump, ILuint Size)
 // Load either a pgm or a ppm
 ILboolean iLoadPnmInternal()
 {
-	ILimage		*PmImage = NULL;
 	PPMINFO		Info;
-//	ILuint		LineInc = 0, SmallInc = 0;
+	ILuint		i, NumSamples, Val;
+	ILubyte		ByteVal = 0;
+	ILubyte		*Data;
+	ILboolean	Ascii;
 
-	Info.Type = 0;
+	memset(&Info, 0, sizeof(Info));
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -179,15 +178,14 @@ ILboolean iLoadPnmInternal()
 	}
 
 	// Find out what type of pgm/ppm this is
-	if (iGetWord(IL_FALSE) == IL_FALSE)
-		return IL_FALSE;
-
-	if (SmallBuff[0] != 'P') {
+	if (igetc() != 'P') {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
+	Info.MaxColour = 1;
+	Info.Bpp = 1;
 
-	switch (SmallBuff[1])
+	switch (igetc())
 	{
 		case '1':
 			Info.Type = IL_PBM_ASCII;
@@ -197,366 +195,220 @@ ILboolean iLoadPnmInternal()
 			break;
 		case '3':
 			Info.Type = IL_PPM_ASCII;
+			Info.Bpp = 3;
 			break;
 		case '4':
 			Info.Type = IL_PBM_BINARY;
-			if (IsLump) {
-				ilSetError(IL_FORMAT_NOT_SUPPORTED);
-				return IL_FALSE;
-			}
 			break;
 		case '5':
 			Info.Type = IL_PGM_BINARY;
 			break;
 		case '6':
 			Info.Type = IL_PPM_BINARY;
+			Info.Bpp = 3;
 			break;
 		case '7':
-			//Info.Type = IL_PAM;
-			return ilReadPam();
+			Info.Type = IL_PAM;
+			break;
 		default:
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 	}
-	
-	// Retrieve the width and height
-	if (iGetWord(IL_FALSE) == IL_FALSE)
-		return IL_FALSE;
-	Info.Width = atoi((const char*)SmallBuff);
-	if (Info.Width == 0) {
+
+	if (Info.Type == IL_PAM) {
+		if (!iGetPamHead(&Info))
+			return IL_FALSE;
+	}
+	else {
+		// Retrieve the width and height
+		if (!iGetNumber(&Info.Width) || !iGetNumber(&Info.Height))
+			return IL_FALSE;
+		// Retrieve the maximum colour component value
+		if (Info.Type != IL_PBM_ASCII && Info.Type != IL_PBM_BINARY) {
+			if (!iGetNumber(&Info.MaxColour))
+				return IL_FALSE;
+		}
+	}
+	if (Info.Width == 0 || Info.Height == 0 || Info.MaxColour == 0 || Info.MaxColour > 65535) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
-	if (iGetWord(IL_FALSE) == IL_FALSE)
-		return IL_FALSE;
-	Info.Height = atoi((const char*)SmallBuff);
-	if (Info.Height == 0) {
-		ilSetError(IL_INVALID_FILE_HEADER);
+	if (!ilTexImage(Info.Width, Info.Height, 1, Info.Bpp, 0, (ILenum)(Info.MaxColour > 255 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE), NULL))
 		return IL_FALSE;
-	}
+	iCurImage->Format = Info.Bpp == 1 ? IL_LUMINANCE : Info.Bpp == 2 ? IL_LUMINANCE_ALPHA : Info.Bpp == 3 ? IL_RGB : IL_RGBA;
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	// Retrieve the maximum colour component value
-	if (Info.Type != IL_PBM_ASCII && Info.Type != IL_PBM_BINARY)
-	{
-		if (iGetWord(IL_TRUE) == IL_FALSE)
-			return IL_FALSE;
-		if ((Info.MaxColour = atoi((const char*)SmallBuff)) == 0)
-		{
-			ilSetError(IL_INVALID_FILE_HEADER);
+	Data = iCurImage->Data;
+	NumSamples = iCurImage->SizeOfData / iCurImage->Bpc;
+	Ascii = (Info.Type == IL_PBM_ASCII || Info.Type == IL_PGM_ASCII || Info.Type == IL_PPM_ASCII);
+	if (!Ascii && Info.Type != IL_PBM_BINARY) {
+		if (iread(Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
 			return IL_FALSE;
-		}
 	}
-	else
-	{
-		Info.MaxColour = 1;
-	}
-	
-	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
-		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
-	{
-		if (Info.Type == IL_PGM_ASCII)
-		{
-			Info.Bpp = Info.MaxColour < 256 ? 1 : 2;
+
+	for (i = 0; i < NumSamples; i++) {
+		if (Info.Type == IL_PBM_ASCII) {  // The digits need not be separated.
+			ILint c = iGetNonSpace();
+			if (c != '0' && c != '1') {
+				ilSetError(c == IL_EOF ? IL_FILE_READ_ERROR : IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
+			Val = (c == '0');  // 1 is black.
 		}
-		else
-		{
-			Info.Bpp = 1;
+		else if (Info.Type == IL_PBM_BINARY) {
+			ILuint x = i % Info.Width;
+			if (x % 8 == 0) {  // Each line starts with a new byte.
+				if (iread(&ByteVal, 1, 1) != 1)
+					return IL_FALSE;
+			}
+			Val = !(ByteVal & (128 >> (x % 8)));
 		}
-	}
-	else
-	{
-		Info.Bpp = 3;
-	}
-	
-	switch (Info.Type)
-	{
-		case IL_PBM_ASCII:
-		case IL_PGM_ASCII:
-		case IL_PPM_ASCII:
-			PmImage = ilReadAsciiPpm(&Info);
-			break;
-		case IL_PBM_BINARY:
-			PmImage = ilReadBitPbm(&Info);
-			break;
-		case IL_PGM_BINARY:
-		case IL_PPM_BINARY:
-			PmImage = ilReadBinaryPpm(&Info);
-			break;
-		/*case IL_PAM:
-			PmImage = ilReadPam(&Info);*/
-		default:
-			return IL_FALSE;
-	}
-
-	if (PmImage == NULL)
-	{
-	    iCurImage->Format = ilGetFormatBpp(iCurImage->Bpp);
-	    ilSetError(IL_FILE_READ_ERROR);
-	    return IL_FALSE;
-	}
+		else if (Ascii) {
+			if (!iGetNumber(&Val))
+				return IL_FALSE;
+		}
+		else if (Info.MaxColour > 255) {
+			BigUShort((ILushort*)Data + i);
+			Val = ((ILushort*)Data)[i];
+		}
+		else
+			Val = Data[i];
 
-	// Is this conversion needed?  Just 0's and 1's shows up as all black
-	if (Info.Type == IL_PBM_ASCII)
-	{
-		PbmMaximize(PmImage);
+		if (Val > Info.MaxColour)
+			Val = Info.MaxColour;
+		if (Info.MaxColour > 255)
+			((ILushort*)Data)[i] = (ILushort)((Val * 65535u + Info.MaxColour / 2) / Info.MaxColour);
+		else
+			Data[i] = (ILubyte)((Val * 255 + Info.MaxColour / 2) / Info.MaxColour);
 	}
 
-	if (Info.MaxColour > 255)
-		PmImage->Type = IL_UNSIGNED_SHORT;
-	PmImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
-		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
-		PmImage->Format = IL_LUMINANCE;
-	else
-		PmImage->Format = IL_RGB;
-	PmImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	if (PmImage == NULL)
-		return IL_FALSE;
 	return ilFixImage();
 }
 
 
-
-ILimage *ilReadAsciiPpm(PPMINFO *Info)
+// Gets the next character that belongs neither to whitespace nor to a comment.
+ILint iGetNonSpace()
 {
-	ILint	LineInc = 0, SmallInc = 0, DataInc = 0, Size;
-//	ILint	BytesRead = 0;
-
-	if (Info->MaxColour > 255)
-		Info->Bpp *= 2;
-
-	Size = Info->Width * Info->Height * Info->Bpp;
-
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	if (Info->MaxColour > 255)
-		iCurImage->Type = IL_UNSIGNED_SHORT;
+	ILint c;
 
-	while (DataInc < Size) {  // && !feof(File)) {
-		LineInc = 0;
-
-		if (iFgets((char *)LineBuffer, MAX_BUFFER) == NULL) {
-			//ilSetError(IL_ILLEGAL_FILE_VALUE);
-			//return NULL;
-			//return iCurImage;
-			break;
-		}
-		if (LineBuffer[0] == '#') {  // Comment
-			continue;
-		}
-
-		while ((LineBuffer[LineInc] != NUL) && (LineBuffer[LineInc] != '\n')) {
-
-			SmallInc = 0;
-			while (!isalnum(LineBuffer[LineInc])) {  // Skip any whitespace
-				LineInc++;
-			}
-			while (isalnum(LineBuffer[LineInc])) {
-				SmallBuff[SmallInc] = LineBuffer[LineInc];
-				SmallInc++;
-				LineInc++;
-			}
-			SmallBuff[SmallInc] = NUL;
-			iCurImage->Data[DataInc] = atoi((const char*)SmallBuff);  // Convert from string to colour
-
-			// PSP likes to put whitespace at the end of lines...figures. =/
-			while (!isalnum(LineBuffer[LineInc]) && LineBuffer[LineInc] != NUL) {  // Skip any whitespace
-				LineInc++;
-			}
-
-			// We should set some kind of state flag that enables this
-			//Image->Data[DataInc] *= (ILubyte)(255 / Info->MaxColour);  // Scales to 0-255		
-			if (Info->MaxColour > 255)
-				DataInc++;
-			DataInc++;
+	for (;;) {
+		c = igetc();
+		if (c == '#') {  // '#' is a comment...read until end of line
+			while (c != IL_EOF && c != '\n' && c != '\r')
+				c = igetc();
 		}
+		if (c == IL_EOF || !isspace(c))
+			return c;
 	}
-
-	// If we read less than what we should have...
-	if (DataInc < Size) {
-		//ilCloseImage(iCurImage);
-		//ilSetCurImage(NULL);
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return NULL;
-	}
-
-	return iCurImage;
 }
 
 
-ILimage *ilReadBinaryPpm(PPMINFO *Info)
+// Gets the next word and the single whitespace character behind it (there need not be one at the end of the file).
+ILboolean iGetWord(char *Word, ILuint Size)
 {
-	ILuint Size;
-
-	Size = Info->Width * Info->Height * Info->Bpp;
-
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
+	ILuint	Pos = 0;
+	ILint	c;
+
+	iQuietErrors(IL_TRUE);  // The end of the file is no error here.
+	for (c = iGetNonSpace(); c != IL_EOF && !isspace(c) && c != '#' && Pos + 1 < Size; c = igetc())
+		Word[Pos++] = (char)c;
+	Word[Pos] = 0;
+	while (c == '#' || (Pos > 0 && c != IL_EOF && !isspace(c)))  // A comment, or too long a word
+		c = igetc();
+	iQuietErrors(IL_FALSE);
+
+	if (Pos == 0 || Pos + 1 >= Size) {
+		ilSetError(Pos == 0 ? IL_FILE_READ_ERROR : IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	/* 4/3/2007 Dario Meloni
-	 Here it seems we have eaten too much bytes and it is needed to fix 
-	 the starting point
-	 works well on various images
-	
-	No more need of this workaround. fixed iGetWord
-	iseek(0,IL_SEEK_END);
-	ILuint size = itell();
-	iseek(size-Size,IL_SEEK_SET);
-	*/
-	if (iread(iCurImage->Data, 1, Size) != Size) {
-		ilCloseImage(iCurImage);	
-		return NULL;
-	}
-	return iCurImage;
+	return IL_TRUE;
 }
 
 
-ILimage *ilReadBitPbm(PPMINFO *Info)
+ILboolean iGetNumber(ILuint *Number)
 {
-	ILuint	m, j, x, CurrByte;
+	char	Word[32];
+	ILuint	i;
 
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!iGetWord(Word, sizeof(Word)))
 		return IL_FALSE;
-	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	x = 0;
-	for (j = 0; j < iCurImage->SizeOfData;) {
-		CurrByte = igetc();
-		for (m = 128; m > 0 && x < Info->Width; m >>= 1, ++x, ++j) {
-			iCurImage->Data[j] = (CurrByte & m)?255:0;
+	*Number = 0;
+	for (i = 0; Word[i]; i++) {
+		if (!isdigit((ILubyte)Word[i]) || *Number > 0x0FFFFFFF) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
 		}
-		if (x == Info->Width)
-			x = 0;
+		*Number = *Number * 10 + (Word[i] - '0');
 	}
-
-	return iCurImage;
+	return IL_TRUE;
 }
 
 
-ILboolean ilReadPam()
+// Reads the header of a .pam file, up to its ENDHDR.
+ILboolean iGetPamHead(PPMINFO *Info)
 {
-	PPMINFO Info;
-	string TempStr;
-	ILuint Size;
+	char	Word[80];
+	string	TupleStr;
 
-	memset(&Info, 0, sizeof(PPMINFO));
-
-	while (!ieof())
-	{
-		if (iGetWord(IL_FALSE) == IL_FALSE)
+	Info->MaxColour = 0;
+	for (;;) {
+		if (!iGetWord(Word, sizeof(Word)))
 			return IL_FALSE;
-		if (!strncmp((const char*)SmallBuff, "ENDHDR", 6))
+		if (!strcmp(Word, "ENDHDR"))
 			break;
-
-		TempStr = (char*)SmallBuff;  // Save the first identifier of the line
-		if (iGetWord(IL_FALSE) == IL_FALSE)
-			return IL_FALSE;
-		if (!strncmp(TempStr.c_str(), "WIDTH", 5))
-			Info.Width = atoi((const char*)SmallBuff);
-		else if (!strncmp(TempStr.c_str(), "HEIGHT", 6))
-			Info.Height = atoi((const char*)SmallBuff);
-		else if (!strncmp(TempStr.c_str(), "DEPTH", 5))
-			Info.Depth = atoi((const char*)SmallBuff);
-		else if (!strncmp(TempStr.c_str(), "MAXVAL", 6))
-			Info.MaxColour = atoi((const char*)SmallBuff);
-		else if (!strncmp(TempStr.c_str(), "TUPLTYPE", 8)) {
-			string tmp = (char*)SmallBuff;
-			Info.TuplType = DecodeTupleType(tmp);
+		if (!strcmp(Word, "TUPLTYPE")) {
+			if (!iGetWord(Word, sizeof(Word)))
+				return IL_FALSE;
+			TupleStr = Word;
+			Info->TuplType = DecodeTupleType(TupleStr);
 		}
-	}
-
-	//@TODO: Handle other max colors and tuple types
-	if (Info.Width == 0 || Info.Height == 0 || Info.Depth == 0 || Info.Depth > 4 || Info.TuplType == 0)
-	{
-		ilSetError(IL_INVALID_FILE_HEADER);
-		return IL_FALSE;
-	}
-	switch (Info.MaxColour)
-	{
-		case 255:
-			Info.Type = IL_UNSIGNED_BYTE;
-			Size = 1;
-			break;
-		case 65535:
-			Info.Type = IL_UNSIGNED_SHORT;
-			Size = 2;
-			break;
-		default:
+		else if (!strcmp(Word, "WIDTH")) {
+			if (!iGetNumber(&Info->Width))
+				return IL_FALSE;
+		}
+		else if (!strcmp(Word, "HEIGHT")) {
+			if (!iGetNumber(&Info->Height))
+				return IL_FALSE;
+		}
+		else if (!strcmp(Word, "DEPTH")) {
+			if (!iGetNumber(&Info->Depth))
+				return IL_FALSE;
+		}
+		else if (!strcmp(Word, "MAXVAL")) {
+			if (!iGetNumber(&Info->MaxColour))
+				return IL_FALSE;
+		}
+		else {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
+		}
 	}
 
-	switch (Info.TuplType)
+	switch (Info->TuplType)
 	{
+		case PAM_BW:
 		case PAM_GRAY:
-			if (Info.Depth != 1)
-			{
-				ilSetError(IL_INVALID_FILE_HEADER);
-				return IL_FALSE;
-			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
-				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_LUMINANCE;
+			Info->Bpp = 1;
 			break;
-
+		case PAM_BW_ALPHA:
 		case PAM_GRAY_ALPHA:
-			if (Info.Depth != 2)
-			{
-				ilSetError(IL_INVALID_FILE_HEADER);
-				return IL_FALSE;
-			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
-				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_LUMINANCE_ALPHA;
+			Info->Bpp = 2;
 			break;
-
 		case PAM_RGB:
-			if (Info.Depth != 3)
-			{
-				ilSetError(IL_INVALID_FILE_HEADER);
-				return IL_FALSE;
-			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
-				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_RGB;
+			Info->Bpp = 3;
 			break;
-
 		case PAM_RGB_ALPHA:
-			if (Info.Depth != 4)
-			{
-				ilSetError(IL_INVALID_FILE_HEADER);
-				return IL_FALSE;
-			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
-				return IL_FALSE;
-			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_RGBA;
+			Info->Bpp = 4;
 			break;
-
 		default:
-			//@TODO: Handle black and white case
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
+			Info->Bpp = 0;
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	if (iread(iCurImage->Data, 1, Size) != Size)
-	{
-		ilCloseImage(iCurImage);
+	if (Info->Bpp == 0 || Info->Depth != Info->Bpp) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-
-	return ilFixImage();
+	return IL_TRUE;
 }
 
 
@@ -579,67 +431,6 @@ ILint DecodeTupleType(string &TupleStr)
 }
 
 
-ILboolean iGetWord(ILboolean final)
-{
-	ILint WordPos = 0;
-	ILint Current = 0;
-	ILboolean Started = IL_FALSE;
-	ILboolean Looping = IL_TRUE;
-
-	if (ieof())
-		return IL_FALSE;
-
-	while (Looping)
-	{
-		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ')
-		{
-			if (WordPos >= MAX_BUFFER)  // We have hit the maximum line length.
-				return IL_FALSE;
-
-			if (!isalnum(Current) && Current != '_') {
-				if (Started) {
-					Looping = IL_FALSE;
-					break;
-				}
-				continue;
-			}
-
-			if (Looping)
-				SmallBuff[WordPos++] = Current;
-		}
-		if (Current == IL_EOF)
-			return IL_FALSE;
-		SmallBuff[WordPos] = 0; // 08-17-2008 - was NULL, changed to avoid warning
-		if (final == IL_TRUE)
-	        break;
-
-		if (!Looping)
-			break;
-
-		if (Current == '#') {  // '#' is a comment...read until end of line
-			while ((Current = igetc()) != IL_EOF && Current != '\n');
-		}
-
-		// Get rid of any erroneous spaces
-		while ((Current = igetc()) != IL_EOF) {
-			if (Current != ' ')
-				break;
-		}
-		iseek(-1, IL_SEEK_CUR);
-
-		if (WordPos > 0)
-			break;
-	}
-
-	if (Current == -1 || WordPos == 0) {
-		ilSetError(IL_INVALID_FILE_HEADER);
-		return IL_FALSE;
-	}
-
-	return IL_TRUE;
-}
-
-
 ILstring FName = NULL;
 
 //! Writes a Pnm file
@@ -724,6 +515,7 @@ ILboolean iSavePnmInternal()
 		return IL_FALSE;
 	}*/
 
+	TempImage = NULL;
 	if (iGetHint(IL_COMPRESSION_HINT) == IL_USE_COMPRESSION) {
 		Type += 3;
 		Binary = IL_TRUE;
@@ -751,7 +543,6 @@ ILboolean iSavePnmInternal()
 	{
 		case IL_PBM_ASCII:
 			Bpp = 1;
-			ilprintf("P1\n");
 			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
 			break;
 		//case IL_PBM_BINARY:  // Don't want to mess with saving bits just yet...
@@ -763,23 +554,19 @@ ILboolean iSavePnmInternal()
 			return IL_FALSE;
 		case IL_PGM_ASCII:
 			Bpp = 1;
-			ilprintf("P2\n");
-			TempImage = iConvertImage(iCurImage, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, iCurImage->Type);
 			break;
 		case IL_PGM_BINARY:
 			Bpp = 1;
-			ilprintf("P5\n");
-			TempImage = iConvertImage(iCurImage, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, iCurImage->Type);
 			break;
 		case IL_PPM_ASCII:
 			Bpp = 3;
-			ilprintf("P3\n");
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_RGB, iCurImage->Type);
 			break;
 		case IL_PPM_BINARY:
 			Bpp = 3;
-			ilprintf("P6\n");
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_RGB, iCurImage->Type);
 			break;
 		default:
 			ilSetError(IL_INTERNAL_ERROR);
@@ -790,6 +577,7 @@ ILboolean iSavePnmInternal()
 		return IL_FALSE;
 
 	if (Bpp != TempImage->Bpp) {
+		ilCloseImage(TempImage);
 		ilSetError(IL_INVALID_CONVERSION);
 		return IL_FALSE;
 	}
@@ -805,36 +593,24 @@ ILboolean iSavePnmInternal()
 		TempData = TempImage->Data;
 	}
 
+	ilprintf("P%d\n", (int)Type);
 	ilprintf("%d %d\n", TempImage->Width, TempImage->Height);
 	if (Type != IL_PBM_BINARY && Type != IL_PBM_ASCII)  // not needed for .pbm's (only 0 and 1)
 		ilprintf("%d\n", MaxVal);
 
-	while (i < TempImage->SizeOfPlane) {
-		for (j = 0; j < Bpp; j++) {
-			if (Binary) {
-				if (Type == IL_PBM_BINARY) {
-					iputc((ILubyte)(TempData[i] > 127 ? 1 : 0));
-				}
-				else {
-					iputc(TempData[i]);
-				}
-			}
-			else {
-				if (TempImage->Type == IL_UNSIGNED_BYTE)
-					k = TempData[i];
-				else  // IL_UNSIGNED_SHORT
-					k = *((ILushort*)TempData + i);
-				if (Type == IL_PBM_ASCII) {
-					LinePos += ilprintf("%d ", TempData[i] > 127 ? 1 : 0);
-				}
-				else {
-					LinePos += ilprintf("%d ", TempData[i]);
-				}
-			}
-
-			if (TempImage->Type == IL_UNSIGNED_SHORT)
-				i++;
-			i++;
+	while (i < TempImage->SizeOfPlane / TempImage->Bpc) {
+		for (j = 0; j < Bpp; j++, i++) {
+			if (TempImage->Type == IL_UNSIGNED_BYTE)
+				k = TempData[i];
+			else  // IL_UNSIGNED_SHORT
+				k = ((ILushort*)TempData)[i];
+
+			if (Binary)
+				iputc((ILubyte)k);
+			else if (Type == IL_PBM_ASCII)
+				LinePos += ilprintf("%d ", k > 127 ? 0 : 1);  // 1 is black.
+			else
+				LinePos += ilprintf("%d ", k);
 		}
 
 		if (LinePos > 65) {  // Just a good number =]
@@ -851,15 +627,4 @@ ILboolean iSavePnmInternal()
 }
 
 
-// Converts a .pbm to something viewable.
-void PbmMaximize(ILimage *Image)
-{
-	ILuint i = 0;
-	for (i = 0; i < Image->SizeOfPlane; i++)
-		if (Image->Data[i] == 1)
-			Image->Data[i] = 0xFF;
-	return;
-}
-
-
 #endif//IL_NO_PNM
-- 
2.43.0


From 9d9ec1b29dbb6697076feccb9b68409b3bd5be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 055/161] fix: ilutSetInteger falls through for a bad S3TC
 format and reports two errors; ILUT_GL_GEN_S3TC reads the wrong variable

---
 DevIL/src-ILUT/src/ilut_states.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILUT/src/ilut_states.cpp b/DevIL/src-ILUT/src/ilut_states.cpp
index 0c88430..0350e48 100644
--- a/DevIL/src-ILUT/src/ilut_states.cpp
+++ b/DevIL/src-ILUT/src/ilut_states.cpp
@@ -228,7 +228,7 @@ void ILAPIENTRY ilutGetIntegerv(ILenum Mode, ILint *Param)
 			*Param = ilutStates[ilutCurrentPos].ilutUseS3TC;
 			break;
 		case ILUT_GL_GEN_S3TC:
-			*Param = ilutStates[ilutCurrentPos].ilutUseS3TC;
+			*Param = ilutStates[ilutCurrentPos].ilutGenS3TC;
 			break;
 		case ILUT_S3TC_FORMAT:
 			*Param = ilutStates[ilutCurrentPos].ilutDXTCFormat;
@@ -270,6 +270,7 @@ void ILAPIENTRY ilutSetInteger(ILenum Mode, ILint Param)
 				ilutStates[ilutCurrentPos].ilutDXTCFormat = Param;
 				return;
 			}
+			break;
 
 //#ifdef ILUT_USE_OPENGL
 		case ILUT_MAXTEX_WIDTH:
@@ -333,6 +334,7 @@ void ILAPIENTRY ilutSetInteger(ILenum Mode, ILint Param)
 
 		default:
 			ilSetError(ILUT_INVALID_ENUM);
+			return;
 	}
 
 	ilSetError(IL_INVALID_PARAM);  // Parameter not in valid bounds.
-- 
2.43.0


From 2509a418fc58665a637f8932ad4b524b4411b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 056/161] fix: ilutPushAttrib leaves variables of the new level
 undefined

---
 DevIL/src-ILUT/src/ilut_states.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/DevIL/src-ILUT/src/ilut_states.cpp b/DevIL/src-ILUT/src/ilut_states.cpp
index 0350e48..3d6cd80 100644
--- a/DevIL/src-ILUT/src/ilut_states.cpp
+++ b/DevIL/src-ILUT/src/ilut_states.cpp
@@ -356,12 +356,23 @@ void ILAPIENTRY ilutPushAttrib(ILuint Bits)
 
 	//memcpy(&ilutStates[ilutCurrentPos], &ilutStates[ilutCurrentPos - 1], sizeof(ILUT_STATES));
 
+	ilutDefaultStates();  // Groups that are not pushed start with their defaults.
+
 	if (Bits & ILUT_OPENGL_BIT) {
 		ilutStates[ilutCurrentPos].ilutUsePalettes = ilutStates[ilutCurrentPos-1].ilutUsePalettes;
 		ilutStates[ilutCurrentPos].ilutOglConv = ilutStates[ilutCurrentPos-1].ilutOglConv;
+		ilutStates[ilutCurrentPos].ilutForceIntegerFormat = ilutStates[ilutCurrentPos-1].ilutForceIntegerFormat;
+		ilutStates[ilutCurrentPos].ilutDXTCFormat = ilutStates[ilutCurrentPos-1].ilutDXTCFormat;
+		ilutStates[ilutCurrentPos].ilutUseS3TC = ilutStates[ilutCurrentPos-1].ilutUseS3TC;
+		ilutStates[ilutCurrentPos].ilutGenS3TC = ilutStates[ilutCurrentPos-1].ilutGenS3TC;
+		ilutStates[ilutCurrentPos].ilutAutodetectTextureTarget = ilutStates[ilutCurrentPos-1].ilutAutodetectTextureTarget;
+		ilutStates[ilutCurrentPos].MaxTexW = ilutStates[ilutCurrentPos-1].MaxTexW;
+		ilutStates[ilutCurrentPos].MaxTexH = ilutStates[ilutCurrentPos-1].MaxTexH;
+		ilutStates[ilutCurrentPos].MaxTexD = ilutStates[ilutCurrentPos-1].MaxTexD;
 	}
 	if (Bits & ILUT_D3D_BIT) {
 		ilutStates[ilutCurrentPos].D3DMipLevels = ilutStates[ilutCurrentPos-1].D3DMipLevels;
+		ilutStates[ilutCurrentPos].D3DPool = ilutStates[ilutCurrentPos-1].D3DPool;
 		ilutStates[ilutCurrentPos].D3DAlphaKeyColor = ilutStates[ilutCurrentPos-1].D3DAlphaKeyColor;
 	}
 
-- 
2.43.0


From e13ab3a3510527ea3e6b250f11c8f87fac8b6cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 057/161] fix: ilutInit takes texture limits from uninitialised
 memory when there is no OpenGL context

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index b7b973a..a904721 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -96,7 +96,7 @@ static ILboolean HasNonPowerOfTwoHardware = IL_FALSE;
 //	Call this after OpenGL has initialized.
 ILboolean ilutGLInit()
 {
-	ILint MaxTexW, MaxTexH, MaxTexD = 1;
+	ILint MaxTexW = 0, MaxTexH = 0, MaxTexD = 1;  // Stay as they are without an OpenGL context.
 
 	// Should we really be setting all this ourselves?  Seems too much like a glu(t) approach...
 	glEnable(GL_TEXTURE_2D);
-- 
2.43.0


From 476d5a34f91ae78c99abdbea9c9a21e122b57f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 058/161] fix: ilutInit keeps the levels pushed before it

---
 DevIL/src-ILUT/src/ilut_states.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILUT/src/ilut_states.cpp b/DevIL/src-ILUT/src/ilut_states.cpp
index 3d6cd80..896dcd2 100644
--- a/DevIL/src-ILUT/src/ilut_states.cpp
+++ b/DevIL/src-ILUT/src/ilut_states.cpp
@@ -23,8 +23,8 @@ ILconst_string _ilutVendor	= IL_TEXT("Abysmal Software");
 ILconst_string _ilutVersion	= IL_TEXT("Developer's Image Library Utility Toolkit (ILUT) 1.8.0");
 
 
-// Set all states to their defaults
-void ilutDefaultStates()
+// Set all states of the current level of the stack to their defaults
+static void iResetStates()
 {
 	ilutStates[ilutCurrentPos].ilutUsePalettes = IL_FALSE;
 	ilutStates[ilutCurrentPos].ilutForceIntegerFormat = IL_FALSE;
@@ -42,6 +42,14 @@ void ilutDefaultStates()
 }
 
 
+// Set all states to their defaults
+void ilutDefaultStates()
+{
+	ilutCurrentPos = 0;
+	iResetStates();
+}
+
+
 void ILAPIENTRY ilutD3D8MipFunc(ILuint NumLevels)
 {
 	ilutStates[ilutCurrentPos].D3DMipLevels = NumLevels;
@@ -356,7 +364,7 @@ void ILAPIENTRY ilutPushAttrib(ILuint Bits)
 
 	//memcpy(&ilutStates[ilutCurrentPos], &ilutStates[ilutCurrentPos - 1], sizeof(ILUT_STATES));
 
-	ilutDefaultStates();  // Groups that are not pushed start with their defaults.
+	iResetStates();  // Groups that are not pushed start with their defaults.
 
 	if (Bits & ILUT_OPENGL_BIT) {
 		ilutStates[ilutCurrentPos].ilutUsePalettes = ilutStates[ilutCurrentPos-1].ilutUsePalettes;
-- 
2.43.0


From 251d0e8e5d2459a091de832c8d3604e1d6b5985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 059/161] fix: iluSetLanguage selects another language than the
 one named, unknown codes read as "no error"

---
 DevIL/src-ILU/src/ilu_error.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_error.cpp b/DevIL/src-ILU/src/ilu_error.cpp
index a954a00..38c37ef 100644
--- a/DevIL/src-ILU/src/ilu_error.cpp
+++ b/DevIL/src-ILU/src/ilu_error.cpp
@@ -31,10 +31,10 @@ ILconst_string *iluErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluErrorStringsEnglish,
 	iluErrorStringsArabic,
 	iluErrorStringsDutch,
-	iluErrorStringsFrench,
 	iluErrorStringsJapanese,
 	iluErrorStringsSpanish,
 	iluErrorStringsGerman,
+	iluErrorStringsFrench,
 	iluErrorStringsItalian
 };
 
@@ -42,10 +42,10 @@ ILconst_string *iluLibErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluLibErrorStringsEnglish,
 	iluLibErrorStringsArabic,
 	iluLibErrorStringsDutch,
-	iluLibErrorStringsFrench,
 	iluLibErrorStringsJapanese,
 	iluLibErrorStringsSpanish,
 	iluLibErrorStringsGerman,
+	iluLibErrorStringsFrench,
 	iluLibErrorStringsItalian
 };
 
@@ -53,10 +53,10 @@ ILconst_string *iluMiscErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluMiscErrorStringsEnglish,
 	iluMiscErrorStringsArabic,
 	iluMiscErrorStringsDutch,
-	iluMiscErrorStringsFrench,
 	iluMiscErrorStringsJapanese,
 	iluMiscErrorStringsSpanish,
 	iluMiscErrorStringsGerman,
+	iluMiscErrorStringsFrench,
 	iluMiscErrorStringsItalian
 };
 
@@ -77,7 +77,7 @@ ILconst_string ILAPIENTRY iluErrorString(ILenum Error)
 		return (ILstring)iluLibErrors[Error - IL_LIB_GIF_ERROR];
 	}
 
-	return iluMiscErrors[0];
+	return iluMiscErrors[1];
 }
 
 
-- 
2.43.0


From ca5eee2e0be221a95d1cff37634e8cf997b5bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 060/161] fix: extension lists, type lookup and type dispatch
 disagree about what can be loaded and saved

---
 DevIL/src-IL/include/il_states.h | 28 +++++++++++++---
 DevIL/src-IL/src/il_io.cpp       | 55 +++++++++++++++++++++++++++++---
 DevIL/src-IL/src/il_states.cpp   | 10 +++---
 3 files changed, 80 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/include/il_states.h b/DevIL/src-IL/include/il_states.h
index 4add400..f7a63dc 100644
--- a/DevIL/src-IL/include/il_states.h
+++ b/DevIL/src-IL/include/il_states.h
@@ -149,7 +149,7 @@ IL_HINTS ilHints;
 #endif
 
 #ifndef IL_NO_DCM
-	#define IL_DCM_EXT "dicom dcm"
+	#define IL_DCM_EXT "dicom dcm "
 #else
 	#define IL_DCM_EXT ""
 #endif
@@ -161,7 +161,7 @@ IL_HINTS ilHints;
 #endif
 
 #ifndef IL_NO_DPX
-	#define IL_DPX_EXT "dds "
+	#define IL_DPX_EXT "dpx "
 #else
 	#define IL_DPX_EXT ""
 #endif
@@ -214,6 +214,12 @@ IL_HINTS ilHints;
 	#define IL_IFF_EXT ""
 #endif
 
+#ifndef IL_NO_ILBM
+	#define IL_ILBM_EXT "ilbm lbm ham "
+#else
+	#define IL_ILBM_EXT ""
+#endif
+
 #ifndef IL_NO_IWI
 	#define IL_IWI_EXT "iwi "
 #else
@@ -227,11 +233,17 @@ IL_HINTS ilHints;
 #endif
 
 #ifndef IL_NO_JPG
-	#define IL_JPG_EXT "jpg jpe jpeg "
+	#define IL_JPG_EXT "jpg jpe jpeg jif jfif "
 #else
 	#define IL_JPG_EXT ""
 #endif
 
+#ifndef IL_NO_KTX
+	#define IL_KTX_EXT "ktx "
+#else
+	#define IL_KTX_EXT ""
+#endif
+
 #ifndef IL_NO_LIF
 	#define IL_LIF_EXT "lif "
 #else
@@ -288,8 +300,10 @@ IL_HINTS ilHints;
 
 #ifndef IL_NO_PNM
 	#define IL_PNM_EXT "pbm pgm pnm ppm "
+	#define IL_PAM_EXT "pam "  // Can only be loaded.
 #else
 	#define IL_PNM_EXT ""
+	#define IL_PAM_EXT ""
 #endif
 
 #ifndef IL_NO_PSD
@@ -322,6 +336,12 @@ IL_HINTS ilHints;
 	#define IL_ROT_EXT ""
 #endif
 
+#ifndef IL_NO_SCITEX
+	#define IL_SCITEX_EXT "ch ct sct "
+#else
+	#define IL_SCITEX_EXT ""
+#endif
+
 #ifndef IL_NO_SGI
 	#define IL_SGI_EXT "sgi bw rgb rgba "
 #else
@@ -383,7 +403,7 @@ IL_HINTS ilHints;
 #endif
 
 #ifndef IL_NO_WDP
-	#define IL_WDP_EXT "wdp "
+	#define IL_WDP_EXT "wdp hdp "
 #else
 	#define IL_WDP_EXT ""
 #endif
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 8b69453..137f296 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -81,6 +81,8 @@ ILenum ILAPIENTRY ilTypeFromExt(ILconst_string FileName)
 		Type = IL_CUT;
 	else if (!iStrCmp(Ext, IL_TEXT("ch")) || !iStrCmp(Ext, IL_TEXT("ct")) || !iStrCmp(Ext, IL_TEXT("sct")))
 		Type = IL_SCITEX;
+	else if (!iStrCmp(Ext, IL_TEXT("dcx")))
+		Type = IL_DCX;
 	else if (!iStrCmp(Ext, IL_TEXT("dcm")) || !iStrCmp(Ext, IL_TEXT("dicom")))
 		Type = IL_DICOM;
 	else if (!iStrCmp(Ext, IL_TEXT("dpx")))
@@ -135,6 +137,8 @@ ILenum ILAPIENTRY ilTypeFromExt(ILconst_string FileName)
 		Type = IL_PSP;
 	else if (!iStrCmp(Ext, IL_TEXT("pxr")))
 		Type = IL_PXR;
+	else if (!iStrCmp(Ext, IL_TEXT("raw")))
+		Type = IL_RAW;
 	else if (!iStrCmp(Ext, IL_TEXT("rot")))
 		Type = IL_ROT;
 	else if (!iStrCmp(Ext, IL_TEXT("sgi")) || !iStrCmp(Ext, IL_TEXT("bw")) ||
@@ -1090,6 +1094,12 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 			break;
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			bRet = ilLoadDcx(FileName);
+			break;
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			bRet = ilLoadDicom(FileName);
@@ -1243,6 +1253,12 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 			break;
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			bRet = ilLoadScitex(FileName);
+			break;
+		#endif
+
 		#ifndef IL_NO_SGI
 		case IL_SGI:
 			bRet = ilLoadSgi(FileName);
@@ -1384,6 +1400,11 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 			return ilLoadCutF(File);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxF(File);
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			return ilLoadDicomF(File);
@@ -1526,6 +1547,11 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 			return ilLoadRotF(File);
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			return ilLoadScitexF(File);
+		#endif
+
 		#ifndef IL_NO_SGI
 		case IL_SGI:
 			return ilLoadSgiF(File);
@@ -1647,6 +1673,11 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 			return ilLoadCutL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			return ilLoadDicomL(Lump, Size);
@@ -1789,6 +1820,11 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 			return ilLoadRotL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			return ilLoadScitexL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_SGI
 		case IL_SGI:
 			return ilLoadSgiL(Lump, Size);
@@ -2144,6 +2180,13 @@ ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 		}
 		#endif
 
+		#ifndef IL_NO_RAW
+		if (!iStrCmp(Ext, IL_TEXT("raw"))) {
+			bRet = ilLoadRaw(FileName);
+			goto finish;
+		}
+		#endif
+
 		#ifndef IL_NO_ROT
 		if (!iStrCmp(Ext, IL_TEXT("rot"))) {
 			bRet = ilLoadRot(FileName);
@@ -2658,7 +2701,7 @@ static ILboolean iSaveExtension(ILconst_string FileName)
 	}
 
 	#ifndef IL_NO_BMP
-	if (!iStrCmp(Ext, IL_TEXT("bmp"))) {
+	if (!iStrCmp(Ext, IL_TEXT("bmp")) || !iStrCmp(Ext, IL_TEXT("dib"))) {
 		bRet = ilSaveBmp(FileName);
 		goto finish;
 	}
@@ -2700,7 +2743,8 @@ static ILboolean iSaveExtension(ILconst_string FileName)
 	#endif
 
 	#ifndef IL_NO_JPG
-	if (!iStrCmp(Ext, IL_TEXT("jpg")) || !iStrCmp(Ext, IL_TEXT("jpeg")) || !iStrCmp(Ext, IL_TEXT("jpe"))) {
+	if (!iStrCmp(Ext, IL_TEXT("jpg")) || !iStrCmp(Ext, IL_TEXT("jpeg")) || !iStrCmp(Ext, IL_TEXT("jpe")) ||
+		!iStrCmp(Ext, IL_TEXT("jif")) || !iStrCmp(Ext, IL_TEXT("jfif"))) {
 		bRet = ilSaveJpeg(FileName);
 		goto finish;
 	}
@@ -2729,14 +2773,14 @@ static ILboolean iSaveExtension(ILconst_string FileName)
 		bRet = ilSavePnm(FileName);
 		goto finish;
 	}
-	if (!iStrCmp(Ext, IL_TEXT("ppm"))) {
+	if (!iStrCmp(Ext, IL_TEXT("ppm")) || !iStrCmp(Ext, IL_TEXT("pnm"))) {
 		bRet = ilSavePnm(FileName);
 		goto finish;
 	}
 	#endif
 
 	#ifndef IL_NO_PSD
-	if (!iStrCmp(Ext, IL_TEXT("psd"))) {
+	if (!iStrCmp(Ext, IL_TEXT("psd")) || !iStrCmp(Ext, IL_TEXT("pdd"))) {
 		bRet = ilSavePsd(FileName);
 		goto finish;
 	}
@@ -2758,7 +2802,8 @@ static ILboolean iSaveExtension(ILconst_string FileName)
 	#endif
 
 	#ifndef IL_NO_TGA
-	if (!iStrCmp(Ext, IL_TEXT("tga"))) {
+	if (!iStrCmp(Ext, IL_TEXT("tga")) || !iStrCmp(Ext, IL_TEXT("vda")) ||
+		!iStrCmp(Ext, IL_TEXT("icb")) || !iStrCmp(Ext, IL_TEXT("vst"))) {
 		bRet = ilSaveTarga(FileName);
 		goto finish;
 	}
diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index b4350f6..2ea093c 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -26,12 +26,14 @@ ILconst_string _ilVersion		= IL_TEXT("Developer's Image Library (DevIL) 1.8.0");
 char* _ilLoadExt		= (char*)"" IL_BLP_EXT IL_BMP_EXT IL_CUT_EXT IL_DCX_EXT IL_DDS_EXT
 									IL_DCM_EXT IL_DPX_EXT IL_EXR_EXT IL_FITS_EXT IL_FTX_EXT
 									IL_GIF_EXT IL_HDR_EXT IL_ICNS_EXT IL_ICO_EXT IL_IFF_EXT
-									IL_IWI_EXT IL_JPG_EXT IL_JP2_EXT IL_LIF_EXT IL_MDL_EXT
+									IL_ILBM_EXT IL_IWI_EXT IL_JPG_EXT IL_JP2_EXT IL_KTX_EXT
+									IL_LIF_EXT IL_MDL_EXT
 									IL_MNG_EXT IL_MP3_EXT IL_PCD_EXT IL_PCX_EXT IL_PIC_EXT
-									IL_PIX_EXT IL_PNG_EXT IL_PNM_EXT IL_PSD_EXT IL_PSP_EXT
-									IL_PXR_EXT IL_RAW_EXT IL_ROT_EXT IL_SGI_EXT IL_SUN_EXT
+									IL_PIX_EXT IL_PNG_EXT IL_PNM_EXT IL_PAM_EXT IL_PSD_EXT
+									IL_PSP_EXT IL_PXR_EXT IL_RAW_EXT IL_ROT_EXT IL_SCITEX_EXT
+									IL_SGI_EXT IL_SUN_EXT
 									IL_TEX_EXT IL_TGA_EXT IL_TIF_EXT IL_TPL_EXT IL_UTX_EXT
-									IL_VTF_EXT IL_WAL_EXT IL_WDP_EXT IL_XPM_EXT;
+									IL_VTF_EXT IL_WAL_EXT IL_WBMP_EXT IL_WDP_EXT IL_XPM_EXT;
 
 char* _ilSaveExt		= (char*)"" IL_BMP_EXT IL_CHEAD_EXT IL_DDS_EXT IL_EXR_EXT
 									IL_HDR_EXT IL_JP2_EXT IL_JPG_EXT IL_PCX_EXT
-- 
2.43.0


From fc71d055f7d516b056cec96205ee69a3e2f263b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 061/161] fix: two Spanish error messages are garbled

---
 DevIL/src-ILU/include/ilu_error/ilu_err-spanish.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-ILU/include/ilu_error/ilu_err-spanish.h b/DevIL/src-ILU/include/ilu_error/ilu_err-spanish.h
index 77b5a24..33fd966 100644
--- a/DevIL/src-ILU/include/ilu_error/ilu_err-spanish.h
+++ b/DevIL/src-ILU/include/ilu_error/ilu_err-spanish.h
@@ -22,8 +22,8 @@ ILconst_string iluErrorStringsSpanish[IL_FILE_READ_ERROR - IL_INVALID_ENUM + 1]
 	IL_TEXT("formato no soportado todav�a"),
 	IL_TEXT("error interno"),
 	IL_TEXT("valor incorrecto"),
-    IL_TEXT("operaci�n ilegaIL_TEXT("),
-	IL_TEXT("valor de fichero ilegaIL_TEXT("),
+    IL_TEXT("operaci�n ilegal"),
+	IL_TEXT("valor de fichero ilegal"),
 	IL_TEXT("cabecera incorrecta"),
 	IL_TEXT("par�metro incorrecto"),
 	IL_TEXT("no se puede abrir el fichero"),
-- 
2.43.0


From 956b1e8660af607b65d7026d874321ad172e2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 062/161] fix: CUT loader writes past the image and accepts
 truncated data

---
 DevIL/src-IL/src/il_cut.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_cut.cpp b/DevIL/src-IL/src/il_cut.cpp
index b5e9e91..59dcca1 100644
--- a/DevIL/src-IL/src/il_cut.cpp
+++ b/DevIL/src-IL/src/il_cut.cpp
@@ -82,7 +82,7 @@ ILboolean iLoadCutInternal()
 {
 	CUT_HEAD	Header;
 	ILuint		Size, i = 0, j;
-	ILubyte		Count, Run;
+	ILint		Count, Run;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -103,25 +103,32 @@ ILboolean iLoadCutInternal()
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-	Size = Header.Width * Header.Height;
+	Size = (ILuint)Header.Width * Header.Height;
 
 	while (i < Size) {
 		Count = igetc();
+		if (Count == IL_EOF)
+			return IL_FALSE;
 		if (Count == 0) { // end of row
 			igetc();  // Not supposed to be here, but
 			igetc();  //  PSP is putting these two bytes here...WHY?!
 			continue;
 		}
 		if (Count & BIT_7) {  // rle-compressed
-			ClearBits(Count, BIT_7);
+			Count &= ~BIT_7;
 			Run = igetc();
-			for (j = 0; j < Count; j++) {
-				iCurImage->Data[i++] = Run;
+			if (Run == IL_EOF)
+				return IL_FALSE;
+			for (j = 0; j < (ILuint)Count && i < Size; j++) {
+				iCurImage->Data[i++] = (ILubyte)Run;
 			}
 		}
 		else {  // run of pixels
-			for (j = 0; j < Count; j++) {
-				iCurImage->Data[i++] = igetc();
+			for (j = 0; j < (ILuint)Count && i < Size; j++) {
+				Run = igetc();
+				if (Run == IL_EOF)
+					return IL_FALSE;
+				iCurImage->Data[i++] = (ILubyte)Run;
 			}
 		}
 	}
-- 
2.43.0


From 961cbe7a9786e8e9caf46c1075903c86677f8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 063/161] fix: numbers read past the end of a file have
 undefined values

---
 DevIL/src-IL/src/il_endian.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-IL/src/il_endian.cpp b/DevIL/src-IL/src/il_endian.cpp
index 60a42f1..0c7ff2a 100644
--- a/DevIL/src-IL/src/il_endian.cpp
+++ b/DevIL/src-IL/src/il_endian.cpp
@@ -85,7 +85,7 @@ void iSwapDouble(ILdouble *d) {
 
 
 ILushort GetLittleUShort() {
-	ILushort s;
+	ILushort s = 0;
 	iread(&s, sizeof(ILushort), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapUShort(&s);
@@ -94,7 +94,7 @@ ILushort GetLittleUShort() {
 }
 
 ILshort GetLittleShort() {
-	ILshort s;
+	ILshort s = 0;
 	iread(&s, sizeof(ILshort), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapShort(&s);
@@ -103,7 +103,7 @@ ILshort GetLittleShort() {
 }
 
 ILuint GetLittleUInt() {
-	ILuint i;
+	ILuint i = 0;
 	iread(&i, sizeof(ILuint), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapUInt(&i);
@@ -112,7 +112,7 @@ ILuint GetLittleUInt() {
 }
 
 ILint GetLittleInt() {
-	ILint i;
+	ILint i = 0;
 	iread(&i, sizeof(ILint), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapInt(&i);
@@ -121,7 +121,7 @@ ILint GetLittleInt() {
 }
 
 ILfloat GetLittleFloat() {
-	ILfloat f;
+	ILfloat f = 0;
 	iread(&f, sizeof(ILfloat), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapFloat(&f);
@@ -130,7 +130,7 @@ ILfloat GetLittleFloat() {
 }
 
 ILdouble GetLittleDouble() {
-	ILdouble d;
+	ILdouble d = 0;
 	iread(&d, sizeof(ILdouble), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapDouble(&d);
@@ -139,7 +139,7 @@ ILdouble GetLittleDouble() {
 }
 
 ILushort GetBigUShort() {
-	ILushort s;
+	ILushort s = 0;
 	iread(&s, sizeof(ILushort), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapUShort(&s);
@@ -148,7 +148,7 @@ ILushort GetBigUShort() {
 }
 
 ILshort GetBigShort() {
-	ILshort s;
+	ILshort s = 0;
 	iread(&s, sizeof(ILshort), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapShort(&s);
@@ -157,7 +157,7 @@ ILshort GetBigShort() {
 }
 
 ILuint GetBigUInt() {
-	ILuint i;
+	ILuint i = 0;
 	iread(&i, sizeof(ILuint), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapUInt(&i);
@@ -166,7 +166,7 @@ ILuint GetBigUInt() {
 }
 
 ILint GetBigInt() {
-	ILint i;
+	ILint i = 0;
 	iread(&i, sizeof(ILint), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapInt(&i);
@@ -175,7 +175,7 @@ ILint GetBigInt() {
 }
 
 ILfloat GetBigFloat() {
-	ILfloat f;
+	ILfloat f = 0;
 	iread(&f, sizeof(ILfloat), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapFloat(&f);
@@ -184,7 +184,7 @@ ILfloat GetBigFloat() {
 }
 
 ILdouble GetBigDouble() {
-	ILdouble d;
+	ILdouble d = 0;
 	iread(&d, sizeof(ILdouble), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapDouble(&d);
-- 
2.43.0


From d01037c74d67ecdc306a01519d74c47018f343fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 064/161] fix: ilprintf overruns its buffer with long strings

---
 DevIL/src-IL/src/il_files.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 080d3f6..9b5442b 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -391,18 +391,31 @@ ILuint ILAPIENTRY ilGetLumpPos()
 
 ILuint ILAPIENTRY ilprintf(const char *Line, ...)
 {
-	char	Buffer[2048];  // Hope this is large enough
+	char	Buffer[2048], *Text = Buffer;
 	va_list	VaLine;
-	ILuint	i;
+	ILint	Length;
 
 	va_start(VaLine, Line);
-	vsprintf(Buffer, Line, VaLine);
+	Length = vsnprintf(Buffer, sizeof(Buffer), Line, VaLine);
 	va_end(VaLine);
+	if (Length < 0)
+		return 0;
+
+	// Lines with long strings need a larger buffer.
+	if ((size_t)Length >= sizeof(Buffer)) {
+		Text = (char*)ialloc((size_t)Length + 1);
+		if (Text == NULL)
+			return 0;
+		va_start(VaLine, Line);
+		vsnprintf(Text, (size_t)Length + 1, Line, VaLine);
+		va_end(VaLine);
+	}
 
-	i = ilCharStrLen(Buffer);
-	iwrite(Buffer, 1, i);
+	iwrite(Text, 1, (ILuint)Length);
+	if (Text != Buffer)
+		ifree(Text);
 
-	return i;
+	return (ILuint)Length;
 }
 
 
-- 
2.43.0


From c0c15ff81f563d02a56f2419a3d70482f2e78787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 065/161] fix: seeks and end-of-file tests differ between files
 and lumps

---
 DevIL/src-IL/src/il_files.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 9b5442b..7f3d76b 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -438,7 +438,9 @@ void ipad(ILuint NumZeros)
 
 ILboolean ILAPIENTRY iEofFile(void)
 {
-	return EofProc((FILE*)FileRead);
+	// Whatever the callback says before something was read beyond the end of the file (feof() e.g.
+	//  says no), the answer is the same as for a lump.
+	return EofProc(FileRead) || iDefaultEof(FileRead);
 }
 
 
@@ -512,7 +514,7 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 
 ILuint ILAPIENTRY iReadLump(void *Buffer, const ILuint Size, const ILuint Number)
 {
-	ILuint Left = ReadLumpSize - ReadLumpPos, ByteSize, i;
+	ILuint Left = ReadLumpPos < ReadLumpSize ? ReadLumpSize - ReadLumpPos : 0, ByteSize, i;
 
 	if (Size == 0 || Number == 0)
 		return 0;
@@ -523,7 +525,8 @@ ILuint ILAPIENTRY iReadLump(void *Buffer, const ILuint Size, const ILuint Number
 	else
 		ByteSize = Size * Number;
 
-	memcpy(Buffer, (const ILubyte*)ReadLump + ReadLumpPos, ByteSize);
+	if (ByteSize != 0)
+		memcpy(Buffer, (const ILubyte*)ReadLump + ReadLumpPos, ByteSize);
 	ReadLumpPos += ByteSize;
 
 	i = ByteSize / Size;
@@ -599,8 +602,21 @@ void iDropCache()
 ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 {
 	iUnCache();
-	if (Mode == IL_SEEK_SET)
+	if (Mode == IL_SEEK_SET) {
+		if (Offset < 0)
+			return 1;
 		Offset += ReadFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
+	}
+	else if (Offset < 0) {
+		// Whatever precedes the image in the file is no part of it.
+		ILuint	OldPos = TellRProc(FileRead);
+		ILint	Ret = SeekRProc(FileRead, Offset, Mode);
+		if (Ret == 0 && TellRProc(FileRead) < (ILint)ReadFileStart) {
+			SeekRProc(FileRead, OldPos, IL_SEEK_SET);
+			return 1;
+		}
+		return Ret;
+	}
 	return SeekRProc(FileRead, Offset, Mode);
 }
 
@@ -627,8 +643,8 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 			return 1;
 	}
 
-	// Only positions inside the lump are reachable.
-	if (NewPos < 0 || NewPos > (ILint64)ReadLumpSize)
+	// As with files, there is nothing to read behind the end.
+	if (NewPos < 0 || NewPos > (ILint64)0x7FFFFFFF)
 		return 1;
 	ReadLumpPos = (ILuint)NewPos;
 
-- 
2.43.0


From 7abfdd1ab96395c0d90506343d685a4c17396a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 066/161] fix: WAL loader frees its mipmaps twice and leaves
 the wrong image bound when it fails

---
 DevIL/src-IL/src/il_wal.cpp | 94 ++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 59 deletions(-)

diff --git a/DevIL/src-IL/src/il_wal.cpp b/DevIL/src-IL/src/il_wal.cpp
index 1a70b0c..00ad4d9 100644
--- a/DevIL/src-IL/src/il_wal.cpp
+++ b/DevIL/src-IL/src/il_wal.cpp
@@ -76,92 +76,68 @@ ILboolean ilLoadWalL(const void *Lump, ILuint Size)
 ILboolean iLoadWalInternal()
 {
 	WALHEAD	Header;
-	ILimage	*Mipmaps[3], *CurImage;
+	ILimage	*Image, *Mip;
 	ILuint	i, NewW, NewH;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	CurImage = iCurImage;
-
 
 	// Read header
-	iread(&Header.FileName, 1, 32);
+	if (iread(&Header.FileName, 1, 32) != 32)
+		return IL_FALSE;
 	Header.Width = GetLittleUInt();
 	Header.Height = GetLittleUInt();
 
 	for (i = 0; i < 4; i++)
 		Header.Offsets[i] = GetLittleUInt();
 
-	iread(Header.AnimName, 1, 32);
+	if (iread(Header.AnimName, 1, 32) != 32)
+		return IL_FALSE;
 	Header.Flags = GetLittleUInt();
 	Header.Contents = GetLittleUInt();
 	Header.Value = GetLittleUInt();
 
-	if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+	if (Header.Width == 0 || Header.Height == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
-
-	for (i = 0; i < 3; i++) {
-		Mipmaps[i] = (ILimage*)icalloc(sizeof(ILimage), 1);
-		if (Mipmaps[i] == NULL)
-			goto cleanup_error;
-		Mipmaps[i]->Pal.Palette = (ILubyte*)ialloc(768);
-		if (Mipmaps[i]->Pal.Palette == NULL)
-			goto cleanup_error;
-		memcpy(Mipmaps[i]->Pal.Palette, ilDefaultQ2Pal, 768);
-		Mipmaps[i]->Pal.PalType = IL_PAL_RGB24;
 	}
 
+	if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+		return IL_FALSE;
+
+	Image = iCurImage;
 	NewW = Header.Width;
 	NewH = Header.Height;
-	for (i = 0; i < 3; i++) {
-		NewW /= 2;
-		NewH /= 2;
-		iCurImage = Mipmaps[i];
-		if (!ilTexImage(NewW, NewH, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
-			goto cleanup_error;
-		// Don't set until now so ilTexImage won't get rid of the palette.
-		Mipmaps[i]->Pal.PalSize = 768;
-		Mipmaps[i]->Origin = IL_ORIGIN_UPPER_LEFT;
-	}
-
-	iCurImage = CurImage;
-	ilCloseImage(iCurImage->Mipmaps);
-	iCurImage->Mipmaps = Mipmaps[0];
-	Mipmaps[0]->Mipmaps = Mipmaps[1];
-	Mipmaps[1]->Mipmaps = Mipmaps[2];
-
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
-		ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (iCurImage->Pal.Palette == NULL)
-		goto cleanup_error;
-
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	memcpy(iCurImage->Pal.Palette, ilDefaultQ2Pal, 768);
-
-	iseek(Header.Offsets[0], IL_SEEK_SET);
-	if (iread(iCurImage->Data, Header.Width * Header.Height, 1) != 1)
-		goto cleanup_error;
-
-	for (i = 0; i < 3; i++) {
-		iseek(Header.Offsets[i+1], IL_SEEK_SET);
-		if (iread(Mipmaps[i]->Data, Mipmaps[i]->Width * Mipmaps[i]->Height, 1) != 1)
-			goto cleanup_error;
+	for (i = 0; i < 4; i++) {
+		if (i > 0) {
+			NewW = IL_MAX(NewW / 2, 1);
+			NewH = IL_MAX(NewH / 2, 1);
+			Mip = ilNewImageFull(NewW, NewH, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
+			if (Mip == NULL)
+				return IL_FALSE;
+			Image->Mipmaps = Mip;
+			Image = Mip;
+		}
+
+		Image->Origin = IL_ORIGIN_UPPER_LEFT;
+		Image->Pal.Palette = (ILubyte*)ialloc(768);
+		if (Image->Pal.Palette == NULL)
+			return IL_FALSE;
+		Image->Pal.PalSize = 768;
+		Image->Pal.PalType = IL_PAL_RGB24;
+		memcpy(Image->Pal.Palette, ilDefaultQ2Pal, 768);
+
+		if (iseek(Header.Offsets[i], IL_SEEK_SET) != 0 ||
+			iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 	}
 
 	// Fixes all images, even mipmaps.
 	return ilFixImage();
-
-cleanup_error:
-	for (i = 0; i < 3; i++) {
-		ilCloseImage(Mipmaps[i]);
-	}
-	return IL_FALSE;
 }
 
 
-- 
2.43.0


From fc4339a6cf636cdd9d581f9ee949a5b601ec116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 067/161] fix: PIX loader writes past the image

---
 DevIL/src-IL/src/il_pix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_pix.cpp b/DevIL/src-IL/src/il_pix.cpp
index e43e60f..f82c229 100644
--- a/DevIL/src-IL/src/il_pix.cpp
+++ b/DevIL/src-IL/src/il_pix.cpp
@@ -122,7 +122,8 @@ ILboolean iLoadPixInternal()
 {
 	PIXHEAD	Header;
 	ILuint	i, j;
-	ILubyte	ByteHead, Colour[3];
+	ILint	ByteHead;
+	ILubyte	Colour[3];
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -141,9 +142,10 @@ ILboolean iLoadPixInternal()
 
 	for (i = 0; i < iCurImage->SizeOfData; ) {
 		ByteHead = igetc();
-		if (iread(Colour, 1, 3) != 3)
+		if (ByteHead == IL_EOF || iread(Colour, 1, 3) != 3)
 			return IL_FALSE;
-		for (j = 0; j < ByteHead; j++) {
+		// A run may not reach beyond the image.
+		for (j = 0; j < (ILuint)ByteHead && i < iCurImage->SizeOfData; j++) {
 			iCurImage->Data[i++] = Colour[0];
 			iCurImage->Data[i++] = Colour[1];
 			iCurImage->Data[i++] = Colour[2];
-- 
2.43.0


From 311d22e9762210adfc640b603bb7d27471e98426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 068/161] fix: PXR loader ignores failures, truncated data and
 the load-time policies

---
 DevIL/src-IL/src/il_pxr.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_pxr.cpp b/DevIL/src-IL/src/il_pxr.cpp
index 6c49329..c6c2366 100644
--- a/DevIL/src-IL/src/il_pxr.cpp
+++ b/DevIL/src-IL/src/il_pxr.cpp
@@ -84,7 +84,10 @@ ILboolean iLoadPxrInternal()
 	ILushort	Width, Height;
 	ILubyte		Bpp;
 
-	Width = sizeof(PIXHEAD);
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	iseek(416, IL_SEEK_SET);
 	Height = GetLittleUShort();
@@ -92,16 +95,24 @@ ILboolean iLoadPxrInternal()
 	iseek(424, IL_SEEK_SET);
 	Bpp = (ILubyte)igetc();
 
+	if (Width == 0 || Height == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	switch (Bpp)
 	{
 		case 0x08:
-			ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0E:
-			ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0F:
-			ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		default:
 			ilSetError(IL_INVALID_FILE_HEADER);
@@ -109,10 +120,11 @@ ILboolean iLoadPxrInternal()
 	}
 
 	iseek(1024, IL_SEEK_SET);
-	iread(iCurImage->Data, 1, iCurImage->SizeOfData);
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
+		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
-- 
2.43.0


From ed95482f1a188f3ec5ce2802679e31ac4e0b6cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 069/161] fix: LIF loader does not check the header it reads

---
 DevIL/src-IL/src/il_lif.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_lif.cpp b/DevIL/src-IL/src/il_lif.cpp
index 0118f69..65ebd3d 100644
--- a/DevIL/src-IL/src/il_lif.cpp
+++ b/DevIL/src-IL/src/il_lif.cpp
@@ -67,7 +67,9 @@ ILboolean ilIsValidLifL(const void *Lump, ILuint Size)
 ILboolean iGetLifHead(LIF_HEAD *Header)
 {
 
-	iread(Header->Id, 1, 8);
+	memset(Header, 0, sizeof(LIF_HEAD));
+	if (iread(Header->Id, 1, 8) != 8)
+		return IL_FALSE;
 
 	Header->Version = GetLittleUInt();
 
@@ -110,7 +112,7 @@ ILboolean iCheckLif(LIF_HEAD *Header)
 {
 	if (Header->Version != 260 || Header->Flags != 50)
 		return IL_FALSE;
-	if (stricmp(Header->Id, "Willy 7"))
+	if (memcmp(Header->Id, "Willy 7", 8))
 		return IL_FALSE;
 	return IL_TRUE;
 }
@@ -170,6 +172,10 @@ ILboolean iLoadLifInternal()
 	
 	if (!iGetLifHead(&LifHead))
 		return IL_FALSE;
+	if (!iCheckLif(&LifHead) || LifHead.Width == 0 || LifHead.Height == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
 	if (!ilTexImage(LifHead.Width, LifHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
@@ -182,7 +188,7 @@ ILboolean iLoadLifInternal()
 	iCurImage->Pal.PalSize = 1024;
 	iCurImage->Pal.PalType = IL_PAL_RGBA32;
 
-	if (iread(iCurImage->Data, LifHead.Width * LifHead.Height, 1) != 1)
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
 		return IL_FALSE;
 	if (iread(iCurImage->Pal.Palette, 1, 1024) != 1024)
 		return IL_FALSE;
-- 
2.43.0


From 1a9fb7de31016bc0d4a6fdcbdd5d13b0ba8666f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 070/161] fix: FTX loader accepts empty images

---
 DevIL/src-IL/src/il_ftx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_ftx.cpp b/DevIL/src-IL/src/il_ftx.cpp
index caac1fd..c7a02c6 100644
--- a/DevIL/src-IL/src/il_ftx.cpp
+++ b/DevIL/src-IL/src/il_ftx.cpp
@@ -72,6 +72,11 @@ ILboolean iLoadFtxInternal(void)
 	Height = GetLittleUInt();
 	HasAlpha = GetLittleUInt();  // Kind of backwards from what I would think...
 
+	if (Width == 0 || Height == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	//@TODO: Right now, it appears that all images are in RGBA format.  See if I can find specs otherwise
 	//  or images that load incorrectly like this.
 	//if (HasAlpha == 0) {  // RGBA format
-- 
2.43.0


From 72fe2e9c032a046cafe66abeefe2f07682b9c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 071/161] fix: DOOM loaders: wrong colours with IL_CONV_PAL,
 flats loaded by name as graphics, bad offsets

---
 DevIL/src-IL/src/il_doom.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_doom.cpp b/DevIL/src-IL/src/il_doom.cpp
index c618978..37e2e6f 100644
--- a/DevIL/src-IL/src/il_doom.cpp
+++ b/DevIL/src-IL/src/il_doom.cpp
@@ -93,6 +93,11 @@ ILboolean iLoadDoomInternal()
 	graphic_header[0] = GetLittleShort();  // Not even used
 	graphic_header[1] = GetLittleShort();  // Not even used
 
+	if (width <= 0 || height <= 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(width, height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
@@ -112,7 +117,11 @@ ILboolean iLoadDoomInternal()
 	for (column_loop = 0; column_loop < width; column_loop++) {
 		column_offset = GetLittleInt();
 		pointer_position = itell();
-		iseek(first_pos + column_offset, IL_SEEK_SET);
+		if (column_offset < 0 || column_offset > 0x7FFFFFFF - first_pos ||
+			iseek(first_pos + column_offset, IL_SEEK_SET) != 0) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 
 		while (1) {
 			if (iread(&topdelta, 1, 1) != 1)
@@ -130,7 +139,8 @@ ILboolean iLoadDoomInternal()
 				if (row_loop + topdelta < height)
 					iCurImage->Data[(row_loop+topdelta) * width + column_loop] = post;
 			}
-			iread(&post, 1, 1); // Skip extra scaling byte
+			if (iread(&post, 1, 1) != 1)
+				return IL_FALSE; // Skip extra scaling byte
 		}
 
 		iseek(pointer_position, IL_SEEK_SET);
@@ -144,9 +154,9 @@ ILboolean iLoadDoomInternal()
 		}
 
 		for (i = 0; i < iCurImage->SizeOfData; i++) {
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
+			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3];
+			NewData[i * 4 + 1] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 1];
+			NewData[i * 4 + 2] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 2];
 			NewData[i * 4 + 3] = iCurImage->Data[i] != 247 ? 255 : 0;
 		}
 
@@ -185,7 +195,7 @@ ILboolean ilLoadDoomFlat(ILconst_string FileName)
 		return bFlat;
 	}
 
-	bFlat = ilLoadDoomF(FlatFile);
+	bFlat = ilLoadDoomFlatF(FlatFile);
 	icloser(FlatFile);
 
 	return bFlat;
@@ -249,9 +259,9 @@ ILboolean iLoadDoomFlatInternal()
 		}
 
 		for (i = 0; i < iCurImage->SizeOfData; i++) {
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
+			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3];
+			NewData[i * 4 + 1] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 1];
+			NewData[i * 4 + 2] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 2];
 			NewData[i * 4 + 3] = iCurImage->Data[i] != 247 ? 255 : 0;
 		}
 
-- 
2.43.0


From e293197a4dca6f63f167187c371ccd6b5ed5c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 072/161] fix: mipmap, layer and frame chains are linked
 through the wrong members

---
 DevIL/src-IL/src/il_register.cpp | 110 +++++++------------------------
 DevIL/src-IL/src/il_stack.cpp    |  13 +++-
 2 files changed, 33 insertions(+), 90 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 274674b..22e9c83 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -265,114 +265,50 @@ void ILAPIENTRY ilRegisterFormat(ILenum Format)
 }
 
 
-ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
+// Replaces the chain that goes along Link by Num new images.
+static ILboolean iRegisterChain(ILimage *ILimage::*Link, ILuint Num)
 {
-	ILimage *Next, *Prev;
-
-	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
-	ilCloseImage(iCurImage->Faces);  // Close any current mipmaps.
+	ILimage *Image;
 
-	iCurImage->Faces = NULL;
-	if (Num == 0)  // Just gets rid of all the mipmaps.
-		return IL_TRUE;
-
-	iCurImage->Faces = ilNewImage(1, 1, 1, 1, 1);
-	if (iCurImage->Faces == NULL)
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
-	Next = iCurImage->Faces;
-	Num--;
-
-	while (Num) {
-		Next->Faces = ilNewImage(1, 1, 1, 1, 1);
-		if (Next->Faces == NULL) {
-			// Clean up before we error out.
-			Prev = iCurImage->Faces;
-			while (Prev) {
-				Next = Prev->Faces;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
-			return IL_FALSE;
-		}
-		Next = Next->Faces;
-		Num--;
 	}
 
-	return IL_TRUE;
-}
-
-
-ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
-{
-	ILimage *Next, *Prev;
-
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
-	ilCloseImage(iCurImage->Mipmaps);  // Close any current mipmaps.
+	ilCloseImage(iCurImage->*Link);  // Close any current images of this kind.
+	iCurImage->*Link = NULL;
 
-	iCurImage->Mipmaps = NULL;
-	if (Num == 0)  // Just gets rid of all the mipmaps.
-		return IL_TRUE;
-
-	iCurImage->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
-	if (iCurImage->Mipmaps == NULL)
-		return IL_FALSE;
-	Next = iCurImage->Mipmaps;
-	Num--;
-
-	while (Num) {
-		Next->Next = ilNewImage(1, 1, 1, 1, 1);
-		if (Next->Next == NULL) {
+	for (Image = iCurImage; Num > 0; Num--) {
+		Image->*Link = ilNewImage(1, 1, 1, 1, 1);
+		if (Image->*Link == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Mipmaps;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->*Link);
+			iCurImage->*Link = NULL;
 			return IL_FALSE;
 		}
-		Next = Next->Next;
-		Num--;
+		Image = Image->*Link;
 	}
 
 	return IL_TRUE;
 }
 
 
-ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
+ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 {
-	ILimage *Next, *Prev;
-
-	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
-	ilCloseImage(iCurImage->Next);  // Close any current "next" images.
+	return iRegisterChain(&ILimage::Faces, Num);
+}
 
-	iCurImage->Next = NULL;
-	if (Num == 0)  // Just gets rid of all the "next" images.
-		return IL_TRUE;
 
-	iCurImage->Next = ilNewImage(1, 1, 1, 1, 1);
-	if (iCurImage->Next == NULL)
-		return IL_FALSE;
-	Next = iCurImage->Next;
-	Num--;
+ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
+{
+	return iRegisterChain(&ILimage::Mipmaps, Num);
+}
 
-	while (Num) {
-		Next->Next = ilNewImage(1, 1, 1, 1, 1);
-		if (Next->Next == NULL) {
-			// Clean up before we error out.
-			Prev = iCurImage->Next;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
-			return IL_FALSE;
-		}
-		Next = Next->Next;
-		Num--;
-	}
 
-	return IL_TRUE;
+ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
+{
+	return iRegisterChain(&ILimage::Next, Num);
 }
 
 
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 9f2c8c8..133ef83 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -522,11 +522,18 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 		return 0;
 	}
 
+	// Every kind of chain has its own link.
 	for (Count = 1; Count < Num; Count++) {
-		SubImage->Next = ilNewImage(1, 1, 1, 1, 1);
-		SubImage = SubImage->Next;
-		if (SubImage == NULL)
+		ILimage *NewImage = ilNewImage(1, 1, 1, 1, 1);
+		if (NewImage == NULL)
 			return Count;
+		if (Type == IL_SUB_NEXT)
+			SubImage->Next = NewImage;
+		else if (Type == IL_SUB_MIPMAP)
+			SubImage->Mipmaps = NewImage;
+		else
+			SubImage->Layers = NewImage;
+		SubImage = NewImage;
 	}
 
 	return Count;
-- 
2.43.0


From 6888853808fa8531f4162cf83b8a741aeb19d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 073/161] fix: ilRegisterPal leaks or loses the palette and
 accepts impossible ones

---
 DevIL/src-IL/src/il_register.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 22e9c83..794887f 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -336,23 +336,31 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 
 void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 {
-	if (!iCurImage->Pal.Palette || !iCurImage->Pal.PalSize || iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-	}
+	ILubyte	*NewPal;
+	ILuint	EntrySize;
 
-	iCurImage->Pal.PalSize = Size;
-	iCurImage->Pal.PalType = Type;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Size);
-	if (iCurImage->Pal.Palette == NULL)
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return;
-
-	if (Pal != NULL) {
-		memcpy(iCurImage->Pal.Palette, Pal, Size);
 	}
-	else {
+
+	EntrySize = ilGetBppPal(Type);
+	if (Pal == NULL || EntrySize == 0 || Size == 0 || Size % EntrySize != 0) {
 		ilSetError(IL_INVALID_PARAM);
+		return;
 	}
-	
+
+	NewPal = (ILubyte*)ialloc(Size);
+	if (NewPal == NULL)
+		return;
+	memcpy(NewPal, Pal, Size);  // Pal may be the current palette.
+
+	if (iCurImage->Pal.Palette != NULL)
+		ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = NewPal;
+	iCurImage->Pal.PalSize = Size;
+	iCurImage->Pal.PalType = Type;
+
 	return;
 }
 
-- 
2.43.0


From 1ebac8692992ead52b2651a1ded118fac334b561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 074/161] fix: closing a long chain of images overflows the
 stack

---
 DevIL/src-IL/src/il_stack.cpp | 77 +++++++++++++----------------------
 1 file changed, 29 insertions(+), 48 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 133ef83..843faa7 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -224,60 +224,41 @@ ILboolean ILAPIENTRY ilIsImage(ILuint Image)
 //! Closes Image and frees all memory associated with it.
 ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 {
+	ILimage	*Last, *Next, *Chains[3];
+	ILuint	i;
+
 	if (Image == NULL)
 		return;
 
-	if (Image->Data != NULL) {
-		ifree(Image->Data);
-		Image->Data = NULL;
-	}
-
-	if (Image->Pal.Palette != NULL && Image->Pal.PalSize > 0 && Image->Pal.PalType != IL_PAL_NONE) {
-		ifree(Image->Pal.Palette);
-		Image->Pal.Palette = NULL;
-	}
-
-	if (Image->Next != NULL) {
-		ilCloseImage(Image->Next);
-		Image->Next = NULL;
-	}
-
-	if (Image->Faces != NULL) {
-		ilCloseImage(Image->Faces);
-		Image->Faces = NULL;
-	}
-
-	if (Image->Mipmaps != NULL) {
-		ilCloseImage(Image->Mipmaps);
-		Image->Mipmaps = NULL;
-	}
-
-	if (Image->Layers != NULL) {
-		ilCloseImage(Image->Layers);
-		Image->Layers = NULL;
-	}
-
-	if (Image->AnimList != NULL && Image->AnimSize != 0) {
-		ifree(Image->AnimList);
-		Image->AnimList = NULL;
-	}
-
-	if (Image->Profile != NULL && Image->ProfileSize != 0) {
-		ifree(Image->Profile);
-		Image->Profile = NULL;
-		Image->ProfileSize = 0;
-	}
+	// Chains can be very long, so all images below this one are put into one list instead of
+	//  closing them recursively.
+	for (Last = Image; Last->Next != NULL; Last = Last->Next);
+
+	while (Image != NULL) {
+		Chains[0] = Image->Faces;
+		Chains[1] = Image->Mipmaps;
+		Chains[2] = Image->Layers;
+		for (i = 0; i < 3; i++) {
+			Last->Next = Chains[i];
+			for (; Last->Next != NULL; Last = Last->Next);
+		}
 
-	if (Image->DxtcData != NULL && Image->DxtcFormat != IL_DXT_NO_COMP) {
-		ifree(Image->DxtcData);
-		Image->DxtcData = NULL;
-		Image->DxtcFormat = IL_DXT_NO_COMP;
-		Image->DxtcSize = 0;
+		if (Image->Data != NULL)
+			ifree(Image->Data);
+		if (Image->Pal.Palette != NULL && Image->Pal.PalSize > 0 && Image->Pal.PalType != IL_PAL_NONE)
+			ifree(Image->Pal.Palette);
+		if (Image->AnimList != NULL && Image->AnimSize != 0)
+			ifree(Image->AnimList);
+		if (Image->Profile != NULL && Image->ProfileSize != 0)
+			ifree(Image->Profile);
+		if (Image->DxtcData != NULL && Image->DxtcFormat != IL_DXT_NO_COMP)
+			ifree(Image->DxtcData);
+
+		Next = Image->Next;
+		ifree(Image);
+		Image = Next;
 	}
 
-	ifree(Image);
-	Image = NULL;
-
 	return;
 }
 
-- 
2.43.0


From 3d195afacdda595c53a446697f1f246d75854155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 075/161] fix: scaling reads outside the image, mixes up types
 and refuses formats

---
 DevIL/src-IL/src/il_devil.cpp        |  15 +-
 DevIL/src-ILU/include/ilu_internal.h |   1 +
 DevIL/src-ILU/include/ilu_scale.h    |  80 +++++
 DevIL/src-ILU/src/ilu_filter_rcg.cpp |  28 +-
 DevIL/src-ILU/src/ilu_internal.cpp   |  36 ++
 DevIL/src-ILU/src/ilu_mipmap.cpp     |   4 +-
 DevIL/src-ILU/src/ilu_scale.cpp      | 289 +++++----------
 DevIL/src-ILU/src/ilu_scale2d.cpp    | 501 ++++-----------------------
 DevIL/src-ILU/src/ilu_scale3d.cpp    | 327 +++--------------
 9 files changed, 325 insertions(+), 956 deletions(-)
 create mode 100644 DevIL/src-ILU/include/ilu_scale.h

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index b953508..8c6aba3 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -810,8 +810,10 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 	
 	if (Dest->Pal.Palette && Dest->Pal.PalSize && Dest->Pal.PalType != IL_PAL_NONE) {
 		ifree(Dest->Pal.Palette);
-		Dest->Pal.Palette = NULL;
 	}
+	Dest->Pal.Palette = NULL;
+	Dest->Pal.PalSize = 0;
+	Dest->Pal.PalType = IL_PAL_NONE;
 	if (Dest->Faces) {
 		ilCloseImage(Dest->Faces);
 		Dest->Faces = NULL;
@@ -988,6 +990,17 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 		return IL_FALSE;
 	}
 	
+	// As in ilInitImage(), SizeOfData has to hold the size of the whole image.
+	if (Width == 0 || Height == 0 || Depth == 0 || Bpp == 0 || Bpc == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	if (Width > 0xFFFFFFFFu / Bpp / Bpc || Height > 0xFFFFFFFFu / (Width * Bpp * Bpc)
+		|| Depth > 0xFFFFFFFFu / (Width * Bpp * Bpc * Height)) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return IL_FALSE;
+	}
+
 	if (Image->Data != NULL)
 		ifree(Image->Data);
 	
diff --git a/DevIL/src-ILU/include/ilu_internal.h b/DevIL/src-ILU/include/ilu_internal.h
index d385aea..239a915 100644
--- a/DevIL/src-ILU/include/ilu_internal.h
+++ b/DevIL/src-ILU/include/ilu_internal.h
@@ -78,6 +78,7 @@ ILint ilRound(ILfloat Num);
 
 
 
+void	iluReplaceImageData(ILimage *Image, ILimage *New);
 ILuint	iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter);
 ILubyte	*iScanFill(void);
 
diff --git a/DevIL/src-ILU/include/ilu_scale.h b/DevIL/src-ILU/include/ilu_scale.h
new file mode 100644
index 0000000..a710e8b
--- /dev/null
+++ b/DevIL/src-ILU/include/ilu_scale.h
@@ -0,0 +1,80 @@
+//-----------------------------------------------------------------------------
+//
+// ImageLib Utility Sources
+// Copyright (C) 2000-2017 by Denton Woods
+//
+// Filename: src-ILU/include/ilu_scale.h
+//
+// Description: Sampling shared by the scaling functions
+//
+//-----------------------------------------------------------------------------
+
+#ifndef ILU_SCALE_H
+#define ILU_SCALE_H
+
+#include "ilu_internal.h"
+#include <math.h>
+
+//! Where a sample of the scaled image comes from along one axis
+typedef struct ILUAXIS
+{
+	ILuint		First, Second;  // Source positions, Second does not lie outside the image
+	ILdouble	Frac;           // Weight of Second
+} ILUAXIS;
+
+
+static inline ILUAXIS iluGetAxis(ILuint Pos, ILuint SrcSize, ILuint DestSize, ILboolean Interpolate)
+{
+	ILUAXIS		Axis;
+	ILuint64	Scaled = (ILuint64)Pos * SrcSize;
+
+	Axis.First = (ILuint)(Scaled / DestSize);
+	Axis.Second = Axis.First + 1 < SrcSize ? Axis.First + 1 : Axis.First;
+	Axis.Frac = Interpolate ? (ILdouble)(Scaled % DestSize) / DestSize : 0.0;
+
+	return Axis;
+}
+
+
+//! Interpolates between two values without ever leaving their range.
+static inline ILdouble iluMix(ILdouble A, ILdouble B, ILdouble Frac)
+{
+	ILdouble	Val;
+
+	if (Frac == 0.0 || A == B)
+		return A;
+	Val = A * (1.0 - Frac) + B * Frac;
+	if (A < B)
+		return Val < A ? A : (Val > B ? B : Val);
+	return Val < B ? B : (Val > A ? A : Val);
+}
+
+
+// The interpolated values are rounded for the integer types.
+static inline void iluPutSample(ILdouble Val, ILfloat *Dest)  { *Dest = (ILfloat)Val; }
+static inline void iluPutSample(ILdouble Val, ILdouble *Dest) { *Dest = Val; }
+template<class T> static inline void iluPutSample(ILdouble Val, T *Dest) { *Dest = (T)floor(Val + 0.5); }
+
+
+//! Calls Function<type> for the type of the image
+#define ILU_SCALE_DISPATCH(Function, Type, Args) \
+	switch (Type) \
+	{ \
+		case IL_UNSIGNED_BYTE:  Function<ILubyte> Args; break; \
+		case IL_BYTE:           Function<ILbyte> Args; break; \
+		case IL_UNSIGNED_SHORT: Function<ILushort> Args; break; \
+		case IL_HALF:           Function<ILushort> Args; break; /* only for nearest */ \
+		case IL_SHORT:          Function<ILshort> Args; break; \
+		case IL_UNSIGNED_INT:   Function<ILuint> Args; break; \
+		case IL_INT:            Function<ILint> Args; break; \
+		case IL_FLOAT:          Function<ILfloat> Args; break; \
+		case IL_DOUBLE:         Function<ILdouble> Args; break; \
+		default: \
+			ilSetError(ILU_ILLEGAL_OPERATION); \
+			return NULL; \
+	}
+
+ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
+ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
+
+#endif//ILU_SCALE_H
diff --git a/DevIL/src-ILU/src/ilu_filter_rcg.cpp b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
index 269408a..aa8d8ba 100644
--- a/DevIL/src-ILU/src/ilu_filter_rcg.cpp
+++ b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
@@ -308,7 +308,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 	/* create intermediate column to hold horizontal dst column zoom */
 	tmp = (ILubyte*)ialloc(src->Height * sizeof(ILubyte));
 	if (tmp == NULL) {
-		return 0;
+		return -1;
 	}
 
 	xscale = (double) dst->Width / (double) src->Width;
@@ -333,9 +333,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 			contribY[i].p = (CONTRIB*)icalloc((int) (width * 2 + 1),
 					sizeof(CONTRIB));
 			if(contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
+				goto __zoom_cleanup;
 			}
 			center = (double) i / yscale;
 			left = ceil(center - width);
@@ -355,9 +353,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 			contribY[i].p = (CONTRIB*)icalloc((int) (fwidth * 2 + 1),
 					sizeof(CONTRIB));
 			if (contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
+				goto __zoom_cleanup;
 			}
 			center = (double) i / yscale;
 			left = ceil(center - fwidth);
@@ -433,8 +429,10 @@ __zoom_cleanup:
 	ifree(tmp);
 
 	// Free the memory allocated for vertical filter weights
-	for (i = 0; i < (ILint)dst->Height; ++i)
-		ifree(contribY[i].p);
+	for (i = 0; i < (ILint)dst->Height; ++i) {
+		if (contribY[i].p != NULL)
+			ifree(contribY[i].p);
+	}
 	ifree(contribY);
 
 	return nRet;
@@ -472,19 +470,17 @@ ILuint iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter)
 		//case 'h': f=filter; s=filter_support; break;
 	}
 
-	Dest = ilNewImage(Width, Height, 1, iluCurImage->Bpp, 1);
-	Dest->Origin = iluCurImage->Origin;
-	Dest->Duration = iluCurImage->Duration;
+	Dest = ilNewImageFull(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
+	if (Dest == NULL)
+		return IL_FALSE;
 	for (c = 0; c < (ILuint)iluCurImage->Bpp; c++) {
 		if (zoom(Dest, iluCurImage, f, s) != 0) {
+			ilCloseImage(Dest);
 			return IL_FALSE;
 		}
 	}
 
-	ilTexImage(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, Dest->Data);
-	iluCurImage->Origin = Dest->Origin;
-	iluCurImage->Duration = Dest->Duration;
-	ilCloseImage(Dest);
+	iluReplaceImageData(iluCurImage, Dest);
 
 	return IL_TRUE;
 }
diff --git a/DevIL/src-ILU/src/ilu_internal.cpp b/DevIL/src-ILU/src/ilu_internal.cpp
index 20036d7..eaf7115 100644
--- a/DevIL/src-ILU/src/ilu_internal.cpp
+++ b/DevIL/src-ILU/src/ilu_internal.cpp
@@ -19,3 +19,39 @@ ILfloat ilSin(ILfloat Angle) {
 ILint ilRound(ILfloat Num) {
     return (ILint)(Num + 0.5); // this is truncating in away-from-0, not rounding
 }
+
+
+// Image gets the pixels and the palette of New, which is closed.  Everything else stays as it is, apart from
+//  what only belonged to the old pixels.
+void iluReplaceImageData(ILimage *Image, ILimage *New)
+{
+	if (Image->Data != NULL)
+		ifree(Image->Data);
+	if (Image->Pal.Palette != NULL && Image->Pal.PalSize > 0 && Image->Pal.PalType != IL_PAL_NONE)
+		ifree(Image->Pal.Palette);
+	if (Image->DxtcData != NULL)
+		ifree(Image->DxtcData);
+	ilCloseImage(Image->Mipmaps);
+
+	Image->Width = New->Width;
+	Image->Height = New->Height;
+	Image->Depth = New->Depth;
+	Image->Bpp = New->Bpp;
+	Image->Bpc = New->Bpc;
+	Image->Bps = New->Bps;
+	Image->SizeOfPlane = New->SizeOfPlane;
+	Image->SizeOfData = New->SizeOfData;
+	Image->Format = New->Format;
+	Image->Type = New->Type;
+	Image->Data = New->Data;
+	Image->Pal = New->Pal;
+	Image->DxtcData = NULL;
+	Image->DxtcFormat = IL_DXT_NO_COMP;
+	Image->DxtcSize = 0;
+	Image->Mipmaps = NULL;
+
+	New->Data = NULL;
+	New->Pal.Palette = NULL;
+	ilCloseImage(New);
+	return;
+}
diff --git a/DevIL/src-ILU/src/ilu_mipmap.cpp b/DevIL/src-ILU/src/ilu_mipmap.cpp
index 94efbf5..42c6509 100644
--- a/DevIL/src-ILU/src/ilu_mipmap.cpp
+++ b/DevIL/src-ILU/src/ilu_mipmap.cpp
@@ -35,9 +35,7 @@ ILboolean iBuildMipmaps(ILimage *Parent, ILuint Width, ILuint Height, ILuint Dep
 	if (Parent->Mipmaps == NULL)
 		return IL_FALSE;
 
-	iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
-
-	return IL_TRUE;
+	return iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
 }
 
 
diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index b6efaf8..7f2da59 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -13,32 +13,41 @@
 
 #include "ilu_internal.h"
 #include "ilu_states.h"
+#include "ilu_scale.h"
 
 
 ILboolean ILAPIENTRY iluEnlargeImage(ILfloat XDim, ILfloat YDim, ILfloat ZDim)
 {
-	if (XDim <= 0.0f || YDim <= 0.0f || ZDim <= 0.0f) {
+	ILdouble	Width, Height, Depth;
+
+	// Also refuses NaNs.
+	if (!(XDim > 0.0f) || !(YDim > 0.0f) || !(ZDim > 0.0f)) {
 		ilSetError(ILU_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
 	iluCurImage = ilGetCurImage();
-	return iluScale((ILuint)(iluCurImage->Width * XDim), (ILuint)(iluCurImage->Height * YDim),
-					(ILuint)(iluCurImage->Depth * ZDim));
-}
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
+	Width  = (ILdouble)(iluCurImage->Width * XDim);
+	Height = (ILdouble)(iluCurImage->Height * YDim);
+	Depth  = (ILdouble)(iluCurImage->Depth * ZDim);
+	if (Width > 4294967295.0 || Height > 4294967295.0 || Depth > 4294967295.0) {
+		ilSetError(ILU_INVALID_PARAM);
+		return IL_FALSE;
+	}
 
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width);
-ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
-ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
+	return iluScale((ILuint)Width, (ILuint)Height, (ILuint)Depth);
+}
 
 
 ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILimage		*Temp;
-	ILboolean	UsePal;
-	ILenum		PalType;
-	ILenum		Origin;
+	ILimage	*Temp, *Indexed;
+	ILpal	*Pal;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -46,14 +55,14 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Width == Width && iluCurImage->Height == Height && iluCurImage->Depth == Depth)
-		return IL_TRUE;
-
 	// A parameter of 0 is not valid.  Let's just assume that the user wanted a value of 1 instead.
 	if (Width == 0)  Width = 1;
 	if (Height == 0) Height = 1;
 	if (Depth == 0)  Depth = 1;
 
+	if (iluCurImage->Width == Width && iluCurImage->Height == Height && iluCurImage->Depth == Depth)
+		return IL_TRUE;
+
 	if ((iluCurImage->Width<Width) || (iluCurImage->Height<Height)) // only do special scale if there is some zoom?
 	{
 		switch (iluFilter)
@@ -64,46 +73,25 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 			case ILU_SCALE_BSPLINE:
 			case ILU_SCALE_LANCZOS3:
 			case ILU_SCALE_MITCHELL:
-
-				iluCurImage = ilGetCurImage();
-				if (iluCurImage == NULL) {
-					ilSetError(ILU_ILLEGAL_OPERATION);
-					return IL_FALSE;
-				}
-
-				// Not supported yet.
+				// The other images are interpolated bilinearly.
 				if (iluCurImage->Type != IL_UNSIGNED_BYTE ||
 					iluCurImage->Format == IL_COLOUR_INDEX ||
-					iluCurImage->Depth > 1) {
-						ilSetError(ILU_ILLEGAL_OPERATION);
-						return IL_FALSE;
-				}
+					iluCurImage->Depth > 1 || Depth > 1)
+					break;
 
 				if (iluCurImage->Width > Width) // shrink width first
 				{
-					Origin = iluCurImage->Origin;
 					Temp = iluScale_(iluCurImage, Width, iluCurImage->Height, iluCurImage->Depth);
-					if (Temp != NULL) {
-						if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-							ilCloseImage(Temp);
-							return IL_FALSE;
-						}
-						iluCurImage->Origin = Origin;
-						ilCloseImage(Temp);
-					}
+					if (Temp == NULL)
+						return IL_FALSE;
+					iluReplaceImageData(iluCurImage, Temp);
 				}
 				else if (iluCurImage->Height > Height) // shrink height first
 				{
-					Origin = iluCurImage->Origin;
 					Temp = iluScale_(iluCurImage, iluCurImage->Width, Height, iluCurImage->Depth);
-					if (Temp != NULL) {
-						if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-							ilCloseImage(Temp);
-							return IL_FALSE;
-						}
-						iluCurImage->Origin = Origin;
-						ilCloseImage(Temp);
-					}
+					if (Temp == NULL)
+						return IL_FALSE;
+					iluReplaceImageData(iluCurImage, Temp);
 				}
 
 				return (ILboolean)iluScaleAdvanced(Width, Height, iluFilter);
@@ -111,196 +99,75 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 	}
 
 
-	Origin = iluCurImage->Origin;
-	UsePal = (iluCurImage->Format == IL_COLOUR_INDEX);
-	PalType = iluCurImage->Pal.PalType;
 	Temp = iluScale_(iluCurImage, Width, Height, Depth);
-	if (Temp != NULL) {
-		if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-			ilCloseImage(Temp);
-			return IL_FALSE;
-		}
-		iluCurImage->Origin = Origin;
+	if (Temp == NULL)
+		return IL_FALSE;
+
+	// Back to as many colours as a palette holds
+	if (Temp->Format != iluCurImage->Format && iluCurImage->Format == IL_COLOUR_INDEX) {
+		Indexed = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 		ilCloseImage(Temp);
-		if (UsePal) {
-			if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
+		if (Indexed == NULL)
+			return IL_FALSE;
+		if (Indexed->Pal.PalType != iluCurImage->Pal.PalType) {
+			Pal = iConvertPal(&Indexed->Pal, iluCurImage->Pal.PalType);
+			if (Pal == NULL) {
+				ilCloseImage(Indexed);
 				return IL_FALSE;
-			ilConvertPal(PalType);
+			}
+			ifree(Indexed->Pal.Palette);
+			Indexed->Pal = *Pal;
+			ifree(Pal);
 		}
-		return IL_TRUE;
+		Temp = Indexed;
 	}
 
-	return IL_FALSE;
+	iluReplaceImageData(iluCurImage, Temp);
+	return IL_TRUE;
 }
 
 
 ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILimage	*Scaled, *CurImage, *ToScale;
-	ILenum	Format, PalType;
-
-	CurImage = ilGetCurImage();
-	Format = Image->Format;
-	if (Format == IL_COLOUR_INDEX) {
-		ilSetCurImage(Image);
-		PalType = Image->Pal.PalType;
-		ToScale = iConvertImage(iluCurImage, ilGetPalBaseType(Image->Pal.PalType), iluCurImage->Type);
-	}
-	else {
-		ToScale = Image;
+	ILimage	*Scaled, *ToScale, *Result;
+
+	// Neither indices nor halves can be interpolated.
+	ToScale = Image;
+	if (iluFilter != ILU_NEAREST) {
+		if (Image->Format == IL_COLOUR_INDEX)
+			ToScale = iConvertImage(Image, ilIsValidPal(&Image->Pal) ? ilGetPalBaseType(Image->Pal.PalType) : IL_RGB, IL_UNSIGNED_BYTE);
+		else if (Image->Type == IL_HALF)
+			ToScale = iConvertImage(Image, Image->Format, IL_FLOAT);
+		if (ToScale == NULL)
+			return NULL;
 	}
 
-	// So we don't replicate this 3 times (one in each iluScalexD_() function.
+	// So we don't replicate this 2 times (one in each iluScalexD_() function.
 	Scaled = (ILimage*)icalloc(1, sizeof(ILimage));
-	if (ilCopyImageAttr(Scaled, ToScale) == IL_FALSE) {
+	if (Scaled == NULL || !ilCopyImageAttr(Scaled, ToScale)
+		|| !ilResizeImage(Scaled, Width, Height, Depth, ToScale->Bpp, ToScale->Bpc)) {
 		ilCloseImage(Scaled);
 		if (ToScale != Image)
 			ilCloseImage(ToScale);
-		ilSetCurImage(CurImage);
 		return NULL;
 	}
-	if (ilResizeImage(Scaled, Width, Height, Depth, ToScale->Bpp, ToScale->Bpc) == IL_FALSE) {
-		ilCloseImage(Scaled);
-		if (ToScale != Image)
-			ilCloseImage(ToScale);
-		ilSetCurImage(CurImage);
-		return NULL;
-	}
-	
-	if (Height <= 1 && Image->Height <= 1) {
-		iluScale1D_(ToScale, Scaled, Width);
-	}
-	if (Depth <= 1 && Image->Depth <= 1) {
-		iluScale2D_(ToScale, Scaled, Width, Height);
-	}
-	else {
-		iluScale3D_(ToScale, Scaled, Width, Height, Depth);
-	}
-
-	if (Format == IL_COLOUR_INDEX) {
-		//ilSetCurImage(Scaled);
-		//ilConvertImage(IL_COLOUR_INDEX);
-		ilSetCurImage(CurImage);
-		ilCloseImage(ToScale);
-	}
-
-	return Scaled;
-}
 
+	if (Depth <= 1 && ToScale->Depth <= 1)
+		Result = iluScale2D_(ToScale, Scaled, Width, Height);
+	else
+		Result = iluScale3D_(ToScale, Scaled, Width, Height, Depth);
 
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width)
-{
-	ILuint		x1, x2;
-	ILuint		NewX1, NewX2, NewX3, x, c;
-	ILdouble	ScaleX, t1, t2, f;
-	ILushort	*ShortPtr, *SShortPtr;
-	ILuint		*IntPtr, *SIntPtr;
-
-	if (Image == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	ScaleX = (ILdouble)Width / Image->Width;
-
-	ShortPtr = (ILushort*)Image->Data;
-	SShortPtr = (ILushort*)Scaled->Data;
-	IntPtr = (ILuint*)Image->Data;
-	SIntPtr = (ILuint*)Scaled->Data;
-
-	if (iluFilter == ILU_NEAREST) {
-		switch (Image->Bpc)
-		{
-			case 1:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Scaled->Data[NewX1 + c] = Image->Data[NewX2 + c];
-					}
-				}
-				break;
-			case 2:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[NewX1 + c] = ShortPtr[NewX2 + c];
-					}
-				}
-				break;
-			case 4:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[NewX1 + c] = IntPtr[NewX2 + c];
-					}
-				}
-				break;
-		}
+	if (ToScale != Image)
+		ilCloseImage(ToScale);
+	if (Result == NULL) {
+		ilCloseImage(Scaled);
+		return NULL;
 	}
-	else {  // IL_LINEAR or IL_BILINEAR
-		switch (Image->Bpc)
-		{
-			case 1:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = Image->Data[NewX1 + c];
-						x2 = Image->Data[NewX2 + c];
-
-						Scaled->Data[NewX3 + c] = (ILubyte)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 2:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
 
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = ShortPtr[NewX1 + c];
-						x2 = ShortPtr[NewX2 + c];
-
-						SShortPtr[NewX3 + c] = (ILushort)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 4:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = IntPtr[NewX1 + c];
-						x2 = IntPtr[NewX2 + c];
-
-						SIntPtr[NewX3 + c] = (ILuint)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-		}
+	if (Image->Type == IL_HALF && Scaled->Type == IL_FLOAT) {
+		Result = iConvertImage(Scaled, Scaled->Format, IL_HALF);
+		ilCloseImage(Scaled);
+		Scaled = Result;
 	}
 
 	return Scaled;
diff --git a/DevIL/src-ILU/src/ilu_scale2d.cpp b/DevIL/src-ILU/src/ilu_scale2d.cpp
index 98a5158..67a7db2 100644
--- a/DevIL/src-ILU/src/ilu_scale2d.cpp
+++ b/DevIL/src-ILU/src/ilu_scale2d.cpp
@@ -2,477 +2,98 @@
 //
 // ImageLib Utility Sources
 // Copyright (C) 2000-2017 by Denton Woods
-// Last modified: 05/25/2001
 //
 // Filename: src-ILU/src/ilu_scale2d.cpp
 //
-// Description: Scales an image.
+// Description: Scales an image that has a depth of one.
 //
 //-----------------------------------------------------------------------------
 
-
 // NOTE:  Don't look at this file if you wish to preserve your sanity!
 
 
 #include "ilu_internal.h"
 #include "ilu_states.h"
+#include "ilu_scale.h"
 
 
-ILimage *iluScale2DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
-ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
-ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
-
-static ILuint	x1, x2;
-static ILuint	NewY1, NewY2, NewX1, NewX2, Size, x, y, c;
-static ILdouble	ScaleX, ScaleY, t1, t2, t3, t4, f, ft, NewX;
-static ILdouble	Table[2][4];  // Assumes we don't have larger than 32-bit images.
-static ILuint	ImgBps, SclBps;
-static ILushort	*ShortPtr, *SShortPtr;
-static ILuint	*IntPtr, *SIntPtr;
-static ILfloat	*FloatPtr, *SFloatPtr;
-
-
-
-ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
+template<class T> static void iScale2DNear(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
-	if (Image == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
+	const T	*Src, *Row = (const T*)Image->Data;
+	T		*Dest = (T*)Scaled->Data;
+	ILuint	x, y, c, Bpp = Image->Bpp;
+
+	for (y = 0; y < Height; y++) {
+		Row = (const T*)(Image->Data + iluGetAxis(y, Image->Height, Height, IL_FALSE).First * (size_t)Image->Bps);
+		for (x = 0; x < Width; x++) {
+			Src = Row + iluGetAxis(x, Image->Width, Width, IL_FALSE).First * (size_t)Bpp;
+			for (c = 0; c < Bpp; c++)
+				*Dest++ = Src[c];
+		}
 	}
-
-	ScaleX = (ILfloat)Width / Image->Width;
-	ScaleY = (ILfloat)Height / Image->Height;
-
-	if (iluFilter == ILU_NEAREST)
-		return iluScale2DNear_(Image, Scaled, Width, Height);
-	else if (iluFilter == ILU_LINEAR)
-		return iluScale2DLinear_(Image, Scaled, Width, Height);
-	// iluFilter == ILU_BILINEAR
-	return iluScale2DBilinear_(Image, Scaled, Width, Height);
+	return;
 }
 
 
-ILimage *iluScale2DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
+// Interpolates along the x axis only.
+template<class T> static void iScale2DLinear(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Scaled->Data[NewY1 + NewX1 + c] = Image->Data[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[NewY1 + NewX1 + c] = ShortPtr[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[NewY1 + NewX1 + c] = IntPtr[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
+	const T	*Row;
+	T		*Dest = (T*)Scaled->Data;
+	ILuint	x, y, c, Bpp = Image->Bpp;
+	ILUAXIS	X;
+
+	for (y = 0; y < Height; y++) {
+		Row = (const T*)(Image->Data + iluGetAxis(y, Image->Height, Height, IL_FALSE).First * (size_t)Image->Bps);
+		for (x = 0; x < Width; x++) {
+			X = iluGetAxis(x, Image->Width, Width, IL_TRUE);
+			for (c = 0; c < Bpp; c++)
+				iluPutSample(iluMix(Row[X.First * Bpp + c], Row[X.Second * Bpp + c], X.Frac), Dest++);
+		}
 	}
-
-	return Scaled;
+	return;
 }
 
 
-ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
+template<class T> static void iScale2DBilinear(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = Image->Data[NewY1 + NewX1 + c];
-						x2 = Image->Data[NewY1 + NewX2 + c];
-						Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = ShortPtr[NewY1 + NewX1 + c];
-						x2 = ShortPtr[NewY1 + NewX2 + c];
-						SShortPtr[Size + c] = (ILushort)((1.0 - f) * x1 + f * x2);
-					}
-				}
-			}
-			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = IntPtr[NewY1 + NewX1 + c];
-						x2 = IntPtr[NewY1 + NewX2 + c];
-						SIntPtr[Size + c] = (ILuint)((1.0 - f) * x1 + f * x2);
-					}
-				}
+	const T	*Row1, *Row2;
+	T		*Dest = (T*)Scaled->Data;
+	ILuint	x, y, c, Bpp = Image->Bpp;
+	ILUAXIS	X, Y;
+
+	for (y = 0; y < Height; y++) {
+		Y = iluGetAxis(y, Image->Height, Height, IL_TRUE);
+		Row1 = (const T*)(Image->Data + Y.First * (size_t)Image->Bps);
+		Row2 = (const T*)(Image->Data + Y.Second * (size_t)Image->Bps);
+		for (x = 0; x < Width; x++) {
+			X = iluGetAxis(x, Image->Width, Width, IL_TRUE);
+			for (c = 0; c < Bpp; c++) {
+				iluPutSample(iluMix(
+					iluMix(Row1[X.First * Bpp + c], Row1[X.Second * Bpp + c], X.Frac),
+					iluMix(Row2[X.First * Bpp + c], Row2[X.Second * Bpp + c], X.Frac), Y.Frac), Dest++);
 			}
-			break;
+		}
 	}
-
-	return Scaled;
+	return;
 }
 
 
-// Rewrote using an algorithm described by Paul Nettle at
-//  http://www.gamedev.net/reference/articles/article669.asp.
-ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
+ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
-	ILfloat	ul, ll, ur, lr;
-	ILfloat	FracX, FracY;
-	ILfloat	SrcX, SrcY;
-	ILuint	iSrcX, iSrcY, iSrcXPlus1, iSrcYPlus1, ulOff, llOff, urOff, lrOff;
-
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					// Calculate where we want to choose pixels from in our source image.
-					SrcX = (ILfloat)x / (ILfloat)ScaleX;
-					SrcY = (ILfloat)y / (ILfloat)ScaleY;
-					// Integer part of SrcX and SrcY
-					iSrcX = (ILuint)floor(SrcX);
-					iSrcY = (ILuint)floor(SrcY);
-					// Fractional part of SrcX and SrcY
-					FracX = SrcX - (ILfloat)(iSrcX);
-					FracY = SrcY - (ILfloat)(iSrcY);
-
-					// We do not want to go past the right edge of the image or past the last line in the image,
-					//  so this takes care of that.  Normally, iSrcXPlus1 is iSrcX + 1, but if this is past the
-					//  right side, we have to bring it back to iSrcX.  The same goes for iSrcYPlus1.
-					if (iSrcX < Image->Width - 1)
-						iSrcXPlus1 = iSrcX + 1;
-					else 
-						iSrcXPlus1 = iSrcX;
-					if (iSrcY < Image->Height - 1)
-						iSrcYPlus1 = iSrcY + 1;
-					else
-						iSrcYPlus1 = iSrcY;
-
-					// Find out how much we want each of the four pixels contributing to the final values.
-					ul = (1.0f - FracX) * (1.0f - FracY);
-					ll = (1.0f - FracX) * FracY;
-					ur = FracX * (1.0f - FracY);
-					lr = FracX * FracY;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						// We just calculate the offsets for each pixel here...
-						ulOff = iSrcY * Image->Bps + iSrcX * Image->Bpp + c;
-						llOff = iSrcYPlus1 * Image->Bps + iSrcX * Image->Bpp + c;
-						urOff = iSrcY * Image->Bps + iSrcXPlus1 * Image->Bpp + c;
-						lrOff = iSrcYPlus1 * Image->Bps + iSrcXPlus1 * Image->Bpp + c;
-
-						// ...and then we do the actual interpolation here.
-						Scaled->Data[y * Scaled->Bps + x * Scaled->Bpp + c] = (ILubyte)(
-							ul * Image->Data[ulOff] + ll * Image->Data[llOff] + ur * Image->Data[urOff] + lr * Image->Data[lrOff]);
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			Height--;  // Only use regular Height once in the following loop.
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					t3 = (1.0 - t2);
-					t4 = t1 * NewX;
-					NewX1 = (ILuint)(t4) * Image->Bpp;
-					NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Table[0][c] = t3 * ShortPtr[NewY1 + NewX1 + c] +
-							t2 * ShortPtr[NewY1 + NewX2 + c];
-
-						Table[1][c] = t3 * ShortPtr[NewY2 + NewX1 + c] +
-							t2 * ShortPtr[NewY2 + NewX2 + c];
-					}
-
-					// Linearly interpolate between the table values.
-					t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-					t3 = (1.0 - t1);
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[Size + c] =
-							(ILushort)(t3 * Table[0][c] + t1 * Table[1][c]);
-					}
-				}
-			}
-
-			// Calculate the last row.
-			NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-			for (x = 0; x < Width; x++) {
-				NewX = Width / ScaleX;
-				t1 = x / (ILdouble)Width;
-				t4 = t1 * Width;
-				ft = (t4 - (ILuint)(t4)) * IL_PI;
-				f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-				NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-				NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-				Size = Height * SclBps + x * Image->Bpp;
-				for (c = 0; c < Scaled->Bpp; c++) {
-					SShortPtr[Size + c] = (ILushort)((1.0 - f) * ShortPtr[NewY1 + NewX1 + c] +
-						f * ShortPtr[NewY1 + NewX2 + c]);
-				}
-			}
-			break;
-
-		case 4:
-			if (Image->Type != IL_FLOAT) {
-				IntPtr = (ILuint*)Image->Data;
-				SIntPtr = (ILuint*)Scaled->Data;
-				Height--;  // Only use regular Height once in the following loop.
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX = Width / ScaleX;
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						t3 = (1.0 - t2);
-						t4 = t1 * NewX;
-						NewX1 = (ILuint)(t4) * Image->Bpp;
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-							Table[0][c] = t3 * IntPtr[NewY1 + NewX1 + c] +
-								t2 * IntPtr[NewY1 + NewX2 + c];
-
-							Table[1][c] = t3 * IntPtr[NewY2 + NewX1 + c] +
-								t2 * IntPtr[NewY2 + NewX2 + c];
-						}
-
-						// Linearly interpolate between the table values.
-						t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-						t3 = (1.0 - t1);
-						Size = y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SIntPtr[Size + c] =
-								(ILuint)(t3 * Table[0][c] + t1 * Table[1][c]);
-						}
-					}
-				}
-
-				// Calculate the last row.
-				NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					ft = (t4 - (ILuint)(t4)) * IL_PI;
-					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-					Size = Height * SclBps + x * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[Size + c] = (ILuint)((1.0 - f) * IntPtr[NewY1 + NewX1 + c] +
-							f * IntPtr[NewY1 + NewX2 + c]);
-					}
-				}
-
-			}
-
-			else {  // IL_FLOAT
-				FloatPtr = (ILfloat*)Image->Data;
-				SFloatPtr = (ILfloat*)Scaled->Data;
-				Height--;  // Only use regular Height once in the following loop.
-
-				for (y = 0; y < Height; y++) {
-
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-
-					NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-
-					for (x = 0; x < Width; x++) {
-
-						NewX = Width / ScaleX;
-
-						t1 = x / (ILdouble)Width;
-
-						t4 = t1 * Width;
-
-						t2 = t4 - (ILuint)(t4);
-
-						t3 = (1.0 - t2);
-
-						t4 = t1 * NewX;
-
-						NewX1 = (ILuint)(t4) * Image->Bpp;
-
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-
-							Table[0][c] = t3 * FloatPtr[NewY1 + NewX1 + c] +
-
-								t2 * FloatPtr[NewY1 + NewX2 + c];
-
-
-
-							Table[1][c] = t3 * FloatPtr[NewY2 + NewX1 + c] +
-
-								t2 * FloatPtr[NewY2 + NewX2 + c];
-
-						}
-
-
-
-						// Linearly interpolate between the table values.
-
-						t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-
-						t3 = (1.0 - t1);
-
-						Size = y * SclBps + x * Scaled->Bpp;
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-
-							SFloatPtr[Size + c] =
-
-								(ILfloat)(t3 * Table[0][c] + t1 * Table[1][c]);
-
-						}
-
-					}
-
-				}
-
-
-
-				// Calculate the last row.
-
-				NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-
-				for (x = 0; x < Width; x++) {
-
-					NewX = Width / ScaleX;
-
-					t1 = x / (ILdouble)Width;
-
-					t4 = t1 * Width;
-
-					ft = (t4 - (ILuint)(t4)) * IL_PI;
-
-					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-
-					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-
-
-					Size = Height * SclBps + x * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-
-						SFloatPtr[Size + c] = (ILfloat)((1.0 - f) * FloatPtr[NewY1 + NewX1 + c] +
-
-							f * FloatPtr[NewY1 + NewX2 + c]);
-
-					}
-
-				}
-
-			}
+	if (Image == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return NULL;
+	}
 
-			break;
+	if (iluFilter == ILU_NEAREST) {
+		ILU_SCALE_DISPATCH(iScale2DNear, Image->Type, (Image, Scaled, Width, Height))
+	}
+	else if (iluFilter == ILU_LINEAR) {
+		ILU_SCALE_DISPATCH(iScale2DLinear, Image->Type, (Image, Scaled, Width, Height))
+	}
+	else {  // iluFilter == ILU_BILINEAR
+		ILU_SCALE_DISPATCH(iScale2DBilinear, Image->Type, (Image, Scaled, Width, Height))
 	}
 
 	return Scaled;
diff --git a/DevIL/src-ILU/src/ilu_scale3d.cpp b/DevIL/src-ILU/src/ilu_scale3d.cpp
index 00b08e0..ef1692f 100644
--- a/DevIL/src-ILU/src/ilu_scale3d.cpp
+++ b/DevIL/src-ILU/src/ilu_scale3d.cpp
@@ -2,312 +2,69 @@
 //
 // ImageLib Utility Sources
 // Copyright (C) 2000-2017 by Denton Woods
-// Last modified: 05/25/2001
 //
-// Filename: src-ILU/src/ilu_scale.cpp
+// Filename: src-ILU/src/ilu_scale3d.cpp
 //
-// Description: Scales an image.
+// Description: Scales an image that has a depth of more than one.
 //
 //-----------------------------------------------------------------------------
 
 
-// NOTE:  Don't look at this file if you wish to preserve your sanity!
-
-
 #include "ilu_internal.h"
 #include "ilu_states.h"
+#include "ilu_scale.h"
 
 
-ILimage *iluScale3DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-ILimage *iluScale3DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-ILimage *iluScale3DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-
-static ILuint		Size, NewX1, NewX2, NewY1, NewY2, NewZ1, NewZ2, x, y, z, c;
-static ILdouble	ScaleX, ScaleY, ScaleZ, x1, x2, t1, t2, t4, f, ft;
-//ILdouble	Table[2][2][4];  // Assumes we don't have larger than 32-bit images.
-static ILuint		ImgBps, SclBps, ImgPlane, SclPlane;
-static ILushort	*ShortPtr, *SShortPtr;
-static ILuint		*IntPtr, *SIntPtr;
-
-
-ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
+// Interpolates along the axes asked for.
+template<class T> static void iScale3D(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth,
+	ILboolean InterX, ILboolean InterYZ)
 {
-	if (Image == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	ScaleX = (ILfloat)Width / Image->Width;
-	ScaleY = (ILfloat)Height / Image->Height;
-	ScaleZ = (ILfloat)Depth / Image->Depth;
-
-	//if (iluFilter == ILU_NEAREST)
-		return iluScale3DNear_(Image, Scaled, Width, Height, Depth);
-	//else if (iluFilter == ILU_LINEAR)
-		//return iluScale3DLinear_(Image, Scaled, Width, Height, Depth);
-	
-	// iluFilter == ILU_BILINEAR
-	//return iluScale3DBilinear_(Image, Scaled, Width, Height, Depth);
-}
-
-
-ILimage *iluScale3DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
-{
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-	ImgPlane = Image->SizeOfPlane / Image->Bpc;
-	SclPlane = Scaled->SizeOfPlane / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							Scaled->Data[NewZ1 + NewY1 + NewX1 + c] =
-								Image->Data[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SShortPtr[NewZ1 + NewY1 + NewX1 + c] =
-								ShortPtr[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
-			}
-			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SIntPtr[NewZ1 + NewY1 + NewX1 + c] =
-								IntPtr[NewZ2 + NewY2 + NewX2 + c];
-						}
+	const ILubyte	*Plane1, *Plane2;
+	const T			*Row11, *Row12, *Row21, *Row22;
+	T				*Dest = (T*)Scaled->Data;
+	ILuint			x, y, z, c, x1, x2, Bpp = Image->Bpp;
+	ILUAXIS			X, Y, Z;
+
+	for (z = 0; z < Depth; z++) {
+		Z = iluGetAxis(z, Image->Depth, Depth, InterYZ);
+		Plane1 = Image->Data + Z.First * (size_t)Image->SizeOfPlane;
+		Plane2 = Image->Data + Z.Second * (size_t)Image->SizeOfPlane;
+		for (y = 0; y < Height; y++) {
+			Y = iluGetAxis(y, Image->Height, Height, InterYZ);
+			Row11 = (const T*)(Plane1 + Y.First * (size_t)Image->Bps);
+			Row12 = (const T*)(Plane1 + Y.Second * (size_t)Image->Bps);
+			Row21 = (const T*)(Plane2 + Y.First * (size_t)Image->Bps);
+			Row22 = (const T*)(Plane2 + Y.Second * (size_t)Image->Bps);
+			for (x = 0; x < Width; x++) {
+				X = iluGetAxis(x, Image->Width, Width, InterX);
+				for (c = 0; c < Bpp; c++) {
+					x1 = X.First * Bpp + c;
+					x2 = X.Second * Bpp + c;
+					if (X.Frac == 0.0 && Y.Frac == 0.0 && Z.Frac == 0.0) {
+						*Dest++ = Row11[x1];
+						continue;
 					}
+					iluPutSample(iluMix(
+						iluMix(iluMix(Row11[x1], Row11[x2], X.Frac), iluMix(Row12[x1], Row12[x2], X.Frac), Y.Frac),
+						iluMix(iluMix(Row21[x1], Row21[x2], X.Frac), iluMix(Row22[x1], Row22[x2], X.Frac), Y.Frac),
+						Z.Frac), Dest++);
 				}
 			}
-			break;
+		}
 	}
-
-	return Scaled;
+	return;
 }
 
 
-ILimage *iluScale3DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
+ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-	ImgPlane = Image->SizeOfPlane / Image->Bpc;
-	SclPlane = Scaled->SizeOfPlane / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						ft = t2 * IL_PI;
-						f = (1.0 - cos(ft)) * .5;
-						NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-						NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-						Size = z * SclPlane + y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							x1 = Image->Data[NewZ1 + NewY1 + NewX1 + c];
-							x2 = Image->Data[NewZ1 + NewY1 + NewX2 + c];
-							Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-						}
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						ft = t2 * IL_PI;
-						f = (1.0 - cos(ft)) * .5;
-						NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-						NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-						Size = z * SclPlane + y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							x1 = ShortPtr[NewZ1 + NewY1 + NewX1 + c];
-							x2 = ShortPtr[NewZ1 + NewY1 + NewX2 + c];
-							SShortPtr[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-						}
-					}
-				}
-			}
-			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						ft = t2 * IL_PI;
-						f = (1.0 - cos(ft)) * .5;
-						NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-						NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-						Size = z * SclPlane + y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							x1 = IntPtr[NewZ1 + NewY1 + NewX1 + c];
-							x2 = IntPtr[NewZ1 + NewY1 + NewX2 + c];
-							SIntPtr[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-						}
-					}
-				}
-			}
-			break;
+	if (Image == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return NULL;
 	}
 
-	return Scaled;
-}
-
-
-/*ILimage *iluScale3DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-{
-		Depth--;  // Only use regular Depth once in the following loop.
-		Height--;  // Only use regular Height once in the following loop.
-		for (z = 0; z < Depth; z++) {
-			NewZ1 = (ILuint)(z / ScaleZ) * Image->SizeOfPlane;
-			NewZ2 = (ILuint)((z+1) / ScaleZ) * Image->SizeOfPlane;
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * Image->Bps;
-				NewY2 = (ILuint)((y+1) / ScaleY) * Image->Bps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					t3 = (1.0 - t2);
-					t4 = t1 * NewX;
-					NewX1 = (ILuint)(t4) * Image->Bpp;
-					NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Table[0][0][c] = t3 * Image->Data[NewZ1 + NewY1 + NewX1 + c] +
-							t2 * Image->Data[NewZ1 + NewY1 + NewX2 + c];
-
-						Table[0][1][c] = t3 * Image->Data[NewZ1 + NewY2 + NewX1 + c] +
-							t2 * Image->Data[NewZ1 + NewY2 + NewX2 + c];
-
-						Table[1][0][c] = t3 * Image->Data[NewZ2 + NewY1 + NewX1 + c] +
-							t2 * Image->Data[NewZ2 + NewY1 + NewX2 + c];
-
-						Table[1][1][c] = t3 * Image->Data[NewZ2 + NewY2 + NewX1 + c] +
-							t2 * Image->Data[NewZ2 + NewY2 + NewX2 + c];
-					}
-
-					// Linearly interpolate between the table values.
-					t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-					t2 = z / (ILdouble)(Depth + 1);   // Depth+1 is the real depth now.
-					t3 = (1.0 - t1);
-					Size = z * Scaled->SizeOfPlane + y * Scaled->Bps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = t3 * Table[0][0][c] + t1 * Table[0][1][c];
-						x2 = t3 * Table[1][0][c] + t1 * Table[1][1][c];
-						Scaled->Data[Size + c] = (ILubyte)((1.0 - t2) * x1 + t2 * x2);
-					}
-				}
-			}
-
-			// Calculate the last row.
-			NewY1 = (ILuint)(Height / ScaleY) * Image->Bps;
-			for (x = 0; x < Width; x++) {
-				NewX = Width / ScaleX;
-				t1 = x / (ILdouble)Width;
-				t4 = t1 * Width;
-				ft = (t4 - (ILuint)(t4)) * IL_PI;
-				f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-				NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-				NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-				Size = Height * Scaled->Bps + x * Image->Bpp;
-				for (c = 0; c < Scaled->Bpp; c++) {
-					Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * Image->Data[NewY1 + NewX1 + c] +
-						f * Image->Data[NewY1 + NewX2 + c]);
-				}
-			}
-		}
-
-		NewZ1 = (ILuint)(Depth / ScaleZ) * Image->SizeOfPlane;
-		for (y = 0; y < Height; y++) {
-			NewY1 = (ILuint)(y / ScaleY) * Image->Bps;
-			for (x = 0; x < Width; x++) {
-				t1 = x / (ILdouble)Width;
-				t4 = t1 * Width;
-				t2 = t4 - (ILuint)(t4);
-				ft = t2 * IL_PI;
-				f = (1.0 - cos(ft)) * .5;
-				NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-				NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-				Size = (Depth) * Scaled->SizeOfPlane + y * Scaled->Bps + x * Scaled->Bpp;
-				for (c = 0; c < Scaled->Bpp; c++) {
-					x1 = Image->Data[NewZ1 + NewY1 + NewX1 + c];
-					x2 = Image->Data[NewZ1 + NewY1 + NewX2 + c];
-					Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-				}
-			}
-		}
-	}
+	ILU_SCALE_DISPATCH(iScale3D, Image->Type, (Image, Scaled, Width, Height, Depth,
+		iluFilter != ILU_NEAREST, iluFilter != ILU_NEAREST && iluFilter != ILU_LINEAR))
 
 	return Scaled;
 }
-*/
-
-- 
2.43.0


From 99f5f0d77fac591ec47b8917993bd3883b7be3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 076/161] fix: registered loaders and savers are duplicated,
 bypassed or ignored, registered formats do not fit the pixels

---
 DevIL/src-IL/include/il_register.h |   4 +-
 DevIL/src-IL/src/il_devil.cpp      |  15 ++--
 DevIL/src-IL/src/il_io.cpp         |  12 +--
 DevIL/src-IL/src/il_register.cpp   | 132 +++++++++++++++++++----------
 4 files changed, 106 insertions(+), 57 deletions(-)

diff --git a/DevIL/src-IL/include/il_register.h b/DevIL/src-IL/include/il_register.h
index ae19f9f..e48a141 100644
--- a/DevIL/src-IL/include/il_register.h
+++ b/DevIL/src-IL/include/il_register.h
@@ -35,7 +35,7 @@ typedef struct iFormatS
 #define I_LOAD_FUNC 0
 #define I_SAVE_FUNC 1
 
-ILboolean iRegisterLoad(ILconst_string FileName);
-ILboolean iRegisterSave(ILconst_string FileName);
+ILboolean iRegisterLoad(ILconst_string FileName, ILboolean *Result);
+ILboolean iRegisterSave(ILconst_string FileName, ILboolean *Result);
 
 #endif//REGISTER_H
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 8c6aba3..9aa8c7d 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -985,6 +985,8 @@ ILuint ILAPIENTRY ilCloneCurImage()
 // Like ilTexImage but doesn't destroy the palette.
 ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILubyte Bpc)
 {
+	ILubyte	*NewData;
+
 	if (Image == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
@@ -1001,6 +1003,11 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 		return IL_FALSE;
 	}
 
+	// The image stays as it was when there is no memory for the new one.
+	NewData = (ILubyte*)ialloc((ILsizei)Width * Height * Depth * Bpp * Bpc);
+	if (NewData == NULL)
+		return IL_FALSE;
+
 	if (Image->Data != NULL)
 		ifree(Image->Data);
 	
@@ -1012,11 +1019,7 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 	Image->Bps = Bpp * Bpc * Width;
 	Image->SizeOfPlane = Image->Bps * Height;
 	Image->SizeOfData = Image->SizeOfPlane * Depth;
-	
-	Image->Data = (ILubyte*)ialloc(Image->SizeOfData);
-	if (Image->Data == NULL) {
-		return IL_FALSE;
-	}
-	
+	Image->Data = NewData;
+
 	return IL_TRUE;
 }
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 137f296..58f0489 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1912,8 +1912,8 @@ ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 
 	// Try registered procedures first (so users can override default lib functions).
 	if (Ext) {
-		if (iRegisterLoad(FileName))
-			return IL_TRUE;
+		if (iRegisterLoad(FileName, &bRet))
+			return bRet;
 
 		#ifndef IL_NO_TGA
 		if (!iStrCmp(Ext, IL_TEXT("tga")) || !iStrCmp(Ext, IL_TEXT("vda")) ||
@@ -2700,6 +2700,10 @@ static ILboolean iSaveExtension(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
+	// Try registered procedures first (so users can override default lib functions).
+	if (iRegisterSave(FileName, &bRet))
+		return bRet;
+
 	#ifndef IL_NO_BMP
 	if (!iStrCmp(Ext, IL_TEXT("bmp")) || !iStrCmp(Ext, IL_TEXT("dib"))) {
 		bRet = ilSaveBmp(FileName);
@@ -2843,10 +2847,6 @@ static ILboolean iSaveExtension(ILconst_string FileName)
 		goto finish;
 	}
 
-	// Try registered procedures
-	if (iRegisterSave(FileName))
-		return IL_TRUE;
-
 	ilSetError(IL_INVALID_EXTENSION);
 	return IL_FALSE;
 
diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 794887f..a0d2382 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -23,17 +23,20 @@ iFormatL *LoadProcs = NULL;
 iFormatS *SaveProcs = NULL;
 
 
-ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
-	iFormatL *TempNode, *NewNode;
-
-	TempNode = LoadProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load)
+{
+	iFormatL *TempNode, *NewNode, **Link = &LoadProcs;
+
+	if (Ext == NULL || *Ext == 0 || Load == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	for (TempNode = LoadProcs; TempNode != NULL; TempNode = TempNode->Next) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		Link = &TempNode->Next;
 	}
 
 	NewNode = (iFormatL*)ialloc(sizeof(iFormatL));
@@ -41,16 +44,14 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 		return IL_FALSE;
 	}
 
-	if (LoadProcs == NULL) {
-		LoadProcs = NewNode;
-	}
-	else {
-		TempNode->Next = NewNode;
-	}
-
 	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 	NewNode->Load = Load;
 	NewNode->Next = NULL;
+	*Link = NewNode;
 
 	return IL_TRUE;
 }
@@ -58,33 +59,33 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 
 ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 {
-	iFormatS *TempNode, *NewNode;
-
-	TempNode = SaveProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
-		}
-	}
+	iFormatS *TempNode, *NewNode, **Link = &SaveProcs;
 
-	NewNode = (iFormatS*)ialloc(sizeof(iFormatL));
-	if (NewNode == NULL) {
+	if (Ext == NULL || *Ext == 0 || Save == NULL) {
+		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
-	if (SaveProcs == NULL) {
-		SaveProcs = NewNode;
+	for (TempNode = SaveProcs; TempNode != NULL; TempNode = TempNode->Next) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
+		}
+		Link = &TempNode->Next;
 	}
-	else {
-		TempNode->Next = NewNode;
+
+	NewNode = (iFormatS*)ialloc(sizeof(iFormatS));
+	if (NewNode == NULL) {
+		return IL_FALSE;
 	}
 
 	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 	NewNode->Save = Save;
 	NewNode->Next = NULL;
+	*Link = NewNode;
 
 	return IL_TRUE;
 }
@@ -95,6 +96,11 @@ ILboolean ILAPIENTRY ilRemoveLoad(ILconst_string Ext)
 {
 	iFormatL *TempNode = LoadProcs, *PrevNode = NULL;
 
+	if (Ext == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	while (TempNode != NULL) {
 		if (!iStrCmp(Ext, TempNode->Ext)) {
 			if (PrevNode == NULL) {  // first node in the list
@@ -124,6 +130,11 @@ ILboolean ILAPIENTRY ilRemoveSave(ILconst_string Ext)
 {
 	iFormatS *TempNode = SaveProcs, *PrevNode = NULL;
 
+	if (Ext == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	while (TempNode != NULL) {
 		if (!iStrCmp(Ext, TempNode->Ext)) {
 			if (PrevNode == NULL) {  // first node in the list
@@ -172,7 +183,8 @@ void ilRemoveRegistered()
 }
 
 
-ILboolean iRegisterLoad(ILconst_string FileName)
+// Calls the handler registered for the extension, if there is one.  Result is what came of it.
+ILboolean iRegisterLoad(ILconst_string FileName, ILboolean *Result)
 {
 	iFormatL	*TempNode = LoadProcs;
 	ILstring	Ext = iGetExtension(FileName);
@@ -185,12 +197,13 @@ ILboolean iRegisterLoad(ILconst_string FileName)
 		if (!iStrCmp(Ext, TempNode->Ext)) {
 			Error = TempNode->Load(FileName);
 			if (Error == IL_NO_ERROR || Error == 0) {  // 0 and IL_NO_ERROR are both valid.
-				return IL_TRUE;
+				*Result = IL_TRUE;
 			}
 			else {
 				ilSetError(Error);
-				return IL_FALSE;
+				*Result = IL_FALSE;
 			}
+			return IL_TRUE;
 		}
 		TempNode = TempNode->Next;
 	}
@@ -199,7 +212,8 @@ ILboolean iRegisterLoad(ILconst_string FileName)
 }
 
 
-ILboolean iRegisterSave(ILconst_string FileName)
+// Calls the handler registered for the extension, if there is one.  Result is what came of it.
+ILboolean iRegisterSave(ILconst_string FileName, ILboolean *Result)
 {
 	iFormatS	*TempNode = SaveProcs;
 	ILstring	Ext = iGetExtension(FileName);
@@ -212,12 +226,13 @@ ILboolean iRegisterSave(ILconst_string FileName)
 		if (!iStrCmp(Ext, TempNode->Ext)) {
 			Error = TempNode->Save(FileName);
 			if (Error == IL_NO_ERROR || Error == 0) {  // 0 and IL_NO_ERROR are both valid.
-				return IL_TRUE;
+				*Result = IL_TRUE;
 			}
 			else {
 				ilSetError(Error);
-				return IL_FALSE;
+				*Result = IL_FALSE;
 			}
+			return IL_TRUE;
 		}
 		TempNode = TempNode->Next;
 	}
@@ -232,6 +247,11 @@ ILboolean iRegisterSave(ILconst_string FileName)
 
 void ILAPIENTRY ilRegisterOrigin(ILenum Origin)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Origin)
 	{
 		case IL_ORIGIN_LOWER_LEFT:
@@ -245,8 +265,25 @@ void ILAPIENTRY ilRegisterOrigin(ILenum Origin)
 }
 
 
+// Gives the current image's pixels the size that its registered format and type need.
+static ILboolean iRegisterLayout(ILubyte Bpp, ILubyte Bpc)
+{
+	if (Bpp == iCurImage->Bpp && Bpc == iCurImage->Bpc)
+		return IL_TRUE;
+	if (!ilResizeImage(iCurImage, iCurImage->Width, iCurImage->Height, iCurImage->Depth, Bpp, Bpc))
+		return IL_FALSE;
+	memset(iCurImage->Data, 0, iCurImage->SizeOfData);
+	return IL_TRUE;
+}
+
+
 void ILAPIENTRY ilRegisterFormat(ILenum Format)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Format)
 	{
 		case IL_COLOUR_INDEX:
@@ -255,8 +292,10 @@ void ILAPIENTRY ilRegisterFormat(ILenum Format)
 		case IL_BGR:
 		case IL_BGRA:
 		case IL_LUMINANCE:
-                case IL_LUMINANCE_ALPHA:
-			iCurImage->Format = Format;
+		case IL_LUMINANCE_ALPHA:
+		case IL_ALPHA:
+			if (iRegisterLayout(ilGetBppFormat(Format), iCurImage->Bpc))
+				iCurImage->Format = Format;
 			break;
 		default:
 			ilSetError(IL_INVALID_ENUM);
@@ -314,6 +353,11 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 
 void ILAPIENTRY ilRegisterType(ILenum Type)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Type)
 	{
 		case IL_BYTE:
@@ -324,7 +368,9 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 		case IL_UNSIGNED_INT:
 		case IL_FLOAT:
 		case IL_DOUBLE:
-			iCurImage->Type = Type;
+		case IL_HALF:
+			if (iRegisterLayout(iCurImage->Bpp, ilGetBpcType(Type)))
+				iCurImage->Type = Type;
 			break;
 		default:
 			ilSetError(IL_INVALID_ENUM);
-- 
2.43.0


From 390fc9572398b5f45e83172f664e61f26dfc8dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:29 +0000
Subject: [PATCH 077/161] fix: handlers registered before ilShutDown stay in
 force after it

---
 DevIL/src-IL/src/il_stack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 843faa7..921dc88 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -660,6 +660,7 @@ void ILAPIENTRY ilShutDown()
 	}
 
 	iDropCache();
+	ilRemoveRegistered();
 
 	while (TempFree != NULL) {
 		FreeNames = (iFree*)TempFree->Next;
-- 
2.43.0


From 7e05fc5c904243e59cc41873d80340150c2f6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 078/161] fix: ILU filters and geometric operations read
 outside the image, mix up types and formats or lose the palette

---
 DevIL/src-ILU/include/ilu_internal.h |    5 +-
 DevIL/src-ILU/include/ilu_samples.h  |  197 ++++
 DevIL/src-ILU/src/ilu_filter.cpp     | 1252 +++++++-------------------
 DevIL/src-ILU/src/ilu_internal.cpp   |   86 ++
 DevIL/src-ILU/src/ilu_manip.cpp      |  740 ++++-----------
 DevIL/src-ILU/src/ilu_noise.cpp      |  119 +--
 DevIL/src-ILU/src/ilu_region.cpp     |  153 ++--
 DevIL/src-ILU/src/ilu_rotate.cpp     |  354 ++------
 DevIL/src-ILU/src/ilu_scale.cpp      |   13 +-
 9 files changed, 1000 insertions(+), 1919 deletions(-)
 create mode 100644 DevIL/src-ILU/include/ilu_samples.h

diff --git a/DevIL/src-ILU/include/ilu_internal.h b/DevIL/src-ILU/include/ilu_internal.h
index 239a915..03269ec 100644
--- a/DevIL/src-ILU/include/ilu_internal.h
+++ b/DevIL/src-ILU/include/ilu_internal.h
@@ -78,9 +78,12 @@ ILint ilRound(ILfloat Num);
 
 
 
+ILimage	*iluIndexedImage(ILimage *Image, ILpal *Pal);
+ILimage	*iluNewSized(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth);
+ILboolean	iluClearBackground(ILimage *Image);
 void	iluReplaceImageData(ILimage *Image, ILimage *New);
 ILuint	iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter);
-ILubyte	*iScanFill(void);
+ILboolean	iScanFill(ILubyte **Mask);
 
 
 #endif//INTERNAL_H
diff --git a/DevIL/src-ILU/include/ilu_samples.h b/DevIL/src-ILU/include/ilu_samples.h
new file mode 100644
index 0000000..35fa967
--- /dev/null
+++ b/DevIL/src-ILU/include/ilu_samples.h
@@ -0,0 +1,197 @@
+//-----------------------------------------------------------------------------
+//
+// ImageLib Utility Sources
+//
+// Filename: src-ILU/include/ilu_samples.h
+//
+// Description: Access to samples of any type and to the colours of an image.
+//
+//-----------------------------------------------------------------------------
+
+#ifndef ILU_SAMPLES_H
+#define ILU_SAMPLES_H
+
+#include "ilu_internal.h"
+#include <math.h>
+#include <string.h>
+
+
+//! Value of a sample at full intensity
+inline ILdouble iluTypeMax(ILenum Type)
+{
+	switch (Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			return 255.0;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			return 65535.0;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			return 4294967295.0;
+	}
+	return 1.0;
+}
+
+
+inline ILdouble iluGetSample(const ILubyte *Data, ILenum Type)
+{
+	ILushort	Short;
+	ILuint		Int;
+	ILfloat		Float;
+	ILdouble	Double;
+
+	switch (Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			return *Data;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			memcpy(&Short, Data, 2);
+			return Short;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			memcpy(&Int, Data, 4);
+			return Int;
+		case IL_FLOAT:
+			memcpy(&Float, Data, 4);
+			return Float;
+		case IL_DOUBLE:
+			memcpy(&Double, Data, 8);
+			return Double;
+		case IL_HALF:
+			memcpy(&Short, Data, 2);
+			if ((Short & 0x7C00) == 0x7C00)
+				Double = (Short & 0x03FF) ? NAN : INFINITY;
+			else if ((Short & 0x7C00) == 0)
+				Double = ldexp((ILdouble)(Short & 0x03FF), -24);
+			else
+				Double = ldexp((ILdouble)((Short & 0x03FF) | 0x0400), ((Short >> 10) & 0x1F) - 25);
+			return (Short & 0x8000) ? -Double : Double;
+	}
+	return 0.0;
+}
+
+
+//! Integers are rounded and kept in range.
+inline void iluSetSample(ILubyte *Data, ILenum Type, ILdouble Value)
+{
+	ILushort	Short;
+	ILuint		Int;
+	ILfloat		Float;
+	ILint		Exp;
+
+	switch (Type)
+	{
+		case IL_FLOAT:
+			Float = (ILfloat)Value;
+			memcpy(Data, &Float, 4);
+			return;
+		case IL_DOUBLE:
+			memcpy(Data, &Value, 8);
+			return;
+		case IL_HALF:
+			Short = signbit(Value) ? 0x8000 : 0;
+			Value = fabs(Value);
+			if (Value != Value)
+				Short |= 0x7E00;
+			else if (Value >= 65520.0)
+				Short |= 0x7C00;
+			else if (Value < ldexp(1.0, -14))  // May round up to the first normalised number.
+				Short |= (ILushort)rint(ldexp(Value, 24));
+			else {
+				frexp(Value, &Exp);  // May carry into the exponent.
+				Short |= (ILushort)(((Exp + 14) << 10) + ((ILint)rint(ldexp(Value, 11 - Exp)) - 0x0400));
+			}
+			memcpy(Data, &Short, 2);
+			return;
+	}
+
+	Value = floor(Value + 0.5);
+	if (!(Value > 0.0))
+		Value = 0.0;
+	if (Value > iluTypeMax(Type))
+		Value = iluTypeMax(Type);
+
+	switch (Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			*Data = (ILubyte)Value;
+			break;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			Short = (ILushort)Value;
+			memcpy(Data, &Short, 2);
+			break;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			Int = (ILuint)Value;
+			memcpy(Data, &Int, 4);
+			break;
+	}
+	return;
+}
+
+
+//! Number of samples of a pixel that are colours (and not alpha values or indices)
+inline ILuint iluColourSamples(ILenum Format)
+{
+	switch (Format)
+	{
+		case IL_LUMINANCE:
+		case IL_LUMINANCE_ALPHA:
+			return 1;
+		case IL_RGB:
+		case IL_BGR:
+		case IL_RGBA:
+		case IL_BGRA:
+			return 3;
+	}
+	return 0;
+}
+
+
+//! Applies Func to the colour of every pixel that Mask selects (all if it is NULL), or to the whole palette.  Func gets
+//  the 3 samples red, green and blue or the luminance, their number and their maximum.
+template <class FUNC> ILboolean iluEachColour(ILimage *Image, const ILubyte *Mask, FUNC Func)
+{
+	ILubyte		*Data = Image->Data;
+	ILuint		i, c, Num, Count = Image->Width * Image->Height * Image->Depth, PlaneSize = Image->Width * Image->Height;
+	ILuint		Size = Image->Bpp * Image->Bpc, Bpc = Image->Bpc;
+	ILenum		Format = Image->Format, Type = Image->Type;
+	ILdouble	Colour[3];
+
+	if (Format == IL_COLOUR_INDEX && ilIsValidPal(&Image->Pal)) {
+		Data = Image->Pal.Palette;
+		Size = ilGetBppPal(Image->Pal.PalType);
+		Count = Image->Pal.PalSize / Size;
+		Format = ilGetPalBaseType(Image->Pal.PalType);
+		Type = IL_UNSIGNED_BYTE;
+		Bpc = 1;
+		Mask = NULL;
+	}
+
+	Num = iluColourSamples(Format);
+	if (Num == 0) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	for (i = 0; i < Count; i++, Data += Size) {
+		if (Mask && !Mask[i % PlaneSize])
+			continue;
+		for (c = 0; c < Num; c++)
+			Colour[Format == IL_BGR || Format == IL_BGRA ? 2 - c : c] = iluGetSample(Data + c * Bpc, Type);
+		Func(Colour, Num, iluTypeMax(Type));
+		for (c = 0; c < Num; c++)
+			iluSetSample(Data + c * Bpc, Type, Colour[Format == IL_BGR || Format == IL_BGRA ? 2 - c : c]);
+	}
+
+	return IL_TRUE;
+}
+
+
+#endif//ILU_SAMPLES_H
diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 19d37d1..06cdc1e 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -3,19 +3,59 @@
 
 #include "ilu_internal.h"
 #include "ilu_filter.h"
+#include "ilu_samples.h"
 #include <math.h>
 #include <limits.h>
 
 
+// Spatial filters work on colours, so an indexed image is filtered in the format of its palette.
+static ILimage *iFilterSource(ILimage *Image)
+{
+	if (Image->Format != IL_COLOUR_INDEX)
+		return Image;
+	return iConvertImage(Image, ilIsValidPal(&Image->Pal) ? ilGetPalBaseType(Image->Pal.PalType) : IL_RGB, IL_UNSIGNED_BYTE);
+}
+
+
+// Ends what iFilterSource() began:  Image gets the pixels of Data, which belong to Source.
+static ILboolean iFilterResult(ILimage *Image, ILimage *Source, ILubyte *Data)
+{
+	ILimage	*Indexed, *Mipmaps;
+
+	if (Data == NULL) {
+		if (Source != Image)
+			ilCloseImage(Source);
+		return IL_FALSE;
+	}
+
+	if (Data != Source->Data) {
+		ifree(Source->Data);
+		Source->Data = Data;
+	}
+	if (Source == Image)
+		return IL_TRUE;
+
+	Indexed = iluIndexedImage(Source, &Image->Pal);
+	ilCloseImage(Source);
+	if (Indexed == NULL)
+		return IL_FALSE;
+
+	Mipmaps = Image->Mipmaps;
+	Image->Mipmaps = NULL;
+	iluReplaceImageData(Image, Indexed);
+	Image->Mipmaps = Mipmaps;
+	return IL_TRUE;
+}
+
+
 // Could probably be optimized a bit...too many nested for loops.
 //! Pixelizes an image
 ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 {
-	ILuint		x, y, z, i, j, k, c, r, Total, Tested;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILdouble	*DblPtr, DblTotal, DblTested;
-	ILubyte		*RegionMask;
+	ILuint		x, y, z, i, j, k, c;
+	ILdouble	Total, Tested;
+	ILubyte		*RegionMask, *Sample;
+	ILimage		*Image;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -23,458 +63,214 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 		return IL_FALSE;
 	}
 
-	if (PixSize == 0)
-		PixSize = 1;
-	r = 0;
+	if (PixSize <= 1)
+		return IL_TRUE;
+	PixSize = IL_MIN(PixSize, IL_MAX(iluCurImage->Width, IL_MAX(iluCurImage->Height, iluCurImage->Depth)));
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX)
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	if (!iScanFill(&RegionMask))
+		return IL_FALSE;
+	Image = iFilterSource(iluCurImage);
+	if (Image == NULL) {
+		ifree(RegionMask);
+		return IL_FALSE;
+	}
 
-	RegionMask = iScanFill();
+	#define PIXEL_SAMPLE	(Image->Data + (z+k) * (ILsizei)Image->SizeOfPlane + (y+j) * (ILsizei)Image->Bps + ((x+i) * Image->Bpp + c) * Image->Bpc)
 
-	switch (iluCurImage->Bpc)
-	{
-		case 1:
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += iluCurImage->Data[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask) {
-											if (!RegionMask[(y+j) * iluCurImage->Width + (x+i)])
-												continue;
-										}
-										iluCurImage->Data[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-											* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-											Total;
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			break;
-		case 2:
-			ShortPtr = (ILushort*)iluCurImage->Data;
-			iluCurImage->Bps /= 2;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += ShortPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
-											ShortPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												Total;
-										}
-									}
-								}
+	for (z = 0; z < Image->Depth; z += PixSize) {
+		for (y = 0; y < Image->Height; y += PixSize) {
+			for (x = 0; x < Image->Width; x += PixSize) {
+				for (c = 0; c < Image->Bpp; c++) {
+					Total = 0.0;  Tested = 0.0;
+					for (k = 0; k < PixSize && z+k < Image->Depth; k++) {
+						for (j = 0; j < PixSize && y+j < Image->Height; j++) {
+							for (i = 0; i < PixSize && x+i < Image->Width; i++, Tested++) {
+								Total += iluGetSample(PIXEL_SAMPLE, Image->Type);
 							}
 						}
 					}
-				}
-			}
-			iluCurImage->Bps *= 2;
-			break;
-		case 4:
-			IntPtr = (ILuint*)iluCurImage->Data;
-			iluCurImage->Bps /= 4;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += IntPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
-											IntPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												Total;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 4;
-			break;
-		case 8:
-			DblPtr = (ILdouble*)iluCurImage->Data;
-			iluCurImage->Bps /= 8;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							DblTotal = 0.0;  DblTested = 0.0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										DblTotal += DblPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							DblTotal /= DblTested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										if (RegionMask[r+i]) {
-											DblPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												DblTotal;
-										}
-									}
+					Total /= Tested;
+
+					for (k = 0; k < PixSize && z+k < Image->Depth; k++) {
+						for (j = 0; j < PixSize && y+j < Image->Height; j++) {
+							for (i = 0; i < PixSize && x+i < Image->Width; i++) {
+								if (RegionMask) {
+									if (!RegionMask[(y+j) * Image->Width + (x+i)])
+										continue;
 								}
+								Sample = PIXEL_SAMPLE;
+								iluSetSample(Sample, Image->Type, Total);
 							}
 						}
 					}
 				}
 			}
-			iluCurImage->Bps *= 8;
-			break;
+		}
 	}
 
+	#undef PIXEL_SAMPLE
 	ifree(RegionMask);
 
-	return IL_TRUE;
+	return iFilterResult(iluCurImage, Image, Image->Data);
 }
 
 
 // Everything here was taken from a tutorial on "Elementary Digital Filtering"
 //	by Ender Wiggen, found at http://www.gamedev.net/reference/programming/features/edf/
 
+// The pixels (numbered within a plane) that the matrix is applied to for the one at x and y.  The edge pixels are
+//  filtered as if they continued outside the image.
+static void iNeighbours(ILint x, ILint y, ILint Width, ILint Height, ILsizei *Pixels)
+{
+	ILint	i, j;
+
+	for (j = 0; j < 3; j++) {
+		for (i = 0; i < 3; i++) {
+			Pixels[j * 3 + i] = IL_MAX(IL_MIN(y + j - 1, Height - 1), 0) * (ILsizei)Width + IL_MAX(IL_MIN(x + i - 1, Width - 1), 0);
+		}
+	}
+	return;
+}
+
+
+// The neighbours as blurring and embossing have always chosen them, which their results shall stay the same for.
+//  The corners have none.
+static ILboolean iOldNeighbours(ILint x, ILint y, ILint Width, ILint Height, ILsizei *Pixels)
+{
+	ILint	LastX = Width - 1, LastY = Height - 1, i, j;
+
+	if ((x == 0 || x == LastX) && (y == 0 || y == LastY))
+		return IL_FALSE;
+
+	if (y == 0 || y == LastY || (x > 0 && x < LastX)) {
+		iNeighbours(x, y, Width, Height, Pixels);
+		Pixels[8] = Pixels[6];
+	}
+	else {  // Left and right side
+		for (j = 0; j < 3; j++) {
+			for (i = 0; i < 3; i++) {
+				Pixels[j * 3 + i] = (y + j - 1) * (ILsizei)Width + (x == LastX ? x + i : IL_MIN(i, LastX));
+				if (Pixels[j * 3 + i] >= (ILsizei)Width * Height)
+					Pixels[j * 3 + i] = (ILsizei)Width * Height - 1;
+			}
+		}
+	}
+	return IL_TRUE;
+}
+
+
 // Needs some SERIOUS optimization.
-ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
+// The bias is in 1/255 of the full intensity.
+ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias, ILboolean FilterAlpha, ILboolean Old, const ILubyte *RegionMask)
 {
-    ILint		x, y, c, LastX, LastY, Offsets[9];
-	ILuint		i, Temp, z;
-	ILubyte		*Data, *ImgData, *NewData, *RegionMask;
-	ILdouble	Num;
-	
+	ILint		x, y, i;
+	ILuint		z, c, Samples;
+	ILubyte		*Data, *Dest;
+	const ILubyte	*Plane;
+	ILsizei		Pixels[9], Size;
+	ILdouble	Num, Bias;
+	ILboolean	Integer;
+
 	if (Image == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return NULL;
 	}
 
+	Samples = FilterAlpha ? Image->Bpp : iluColourSamples(Image->Format);
+	if (Samples == 0) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return NULL;
+	}
+
 	Data = (ILubyte*)ialloc(Image->SizeOfData);
 	if (Data == NULL) {
 		return NULL;
 	}
+	memcpy(Data, Image->Data, Image->SizeOfData);
 
-	RegionMask = iScanFill();
-
-	// Preserve original data.
-	ImgData = Image->Data;
-	NewData = Data;
+	Size = (ILsizei)Image->Bpp * Image->Bpc;
+	Bias = bias * iluTypeMax(Image->Type) / 255.0;
+	Integer = iluTypeMax(Image->Type) > 1.0;
 
 	for (z = 0; z < Image->Depth; z++) {
-		LastX = Image->Width  - 1;
-		LastY = Image->Height - 1;
-		for (y = 1; y < LastY; y++) {
-			for (x = 1; x < LastX; x++) {
-				Offsets[4] = ((y  ) * Image->Width + (x  )) * Image->Bpp;
+		Plane = Image->Data + z * (ILsizei)Image->SizeOfPlane;
+		Dest = Data + z * (ILsizei)Image->SizeOfPlane;
+		for (y = 0; y < (ILint)Image->Height; y++) {
+			for (x = 0; x < (ILint)Image->Width; x++, Dest += Size) {
 				if (RegionMask) {
-					if (!RegionMask[y * Image->Width + x]) {
-						for (c = 0; c < Image->Bpp; c++) {
-							Data[Offsets[4]+c] = Image->Data[Offsets[4]+c];
-						}
+					if (!RegionMask[y * (ILsizei)Image->Width + x])
 						continue;
-					}
 				}
 
-				Offsets[0] = ((y-1) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[1] = ((y-1) * Image->Width + (x  )) * Image->Bpp;
-				Offsets[2] = ((y-1) * Image->Width + (x+1)) * Image->Bpp;
-				Offsets[3] = ((y  ) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[5] = ((y  ) * Image->Width + (x+1)) * Image->Bpp;
-				Offsets[6] = ((y+1) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[7] = ((y+1) * Image->Width + (x  )) * Image->Bpp;
-				Offsets[8] = ((y+1) * Image->Width + (x-1)) * Image->Bpp;
-
-				// Always has at least one, so get rid of all those +c's
-				Num =   Image->Data[Offsets[0]] * matrix[0] +
-						Image->Data[Offsets[1]] * matrix[1]+
-						Image->Data[Offsets[2]] * matrix[2]+
-						Image->Data[Offsets[3]] * matrix[3]+
-						Image->Data[Offsets[4]] * matrix[4]+
-						Image->Data[Offsets[5]] * matrix[5]+
-						Image->Data[Offsets[6]] * matrix[6]+
-						Image->Data[Offsets[7]] * matrix[7]+
-						Image->Data[Offsets[8]] * matrix[8];
-
-				Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-				if (Temp > 255)
-					Data[Offsets[4]] = 255;
-				else
-					Data[Offsets[4]] = Temp;
-
-				for (c = 1; c < Image->Bpp; c++) {
-					Num =   Image->Data[Offsets[0]+c] * matrix[0]+
-							Image->Data[Offsets[1]+c] * matrix[1]+
-							Image->Data[Offsets[2]+c] * matrix[2]+
-							Image->Data[Offsets[3]+c] * matrix[3]+
-							Image->Data[Offsets[4]+c] * matrix[4]+
-							Image->Data[Offsets[5]+c] * matrix[5]+
-							Image->Data[Offsets[6]+c] * matrix[6]+
-							Image->Data[Offsets[7]+c] * matrix[7]+
-							Image->Data[Offsets[8]+c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[Offsets[4]+c] = 255;
-					else
-						Data[Offsets[4]+c] = Temp;
-				}
-			}
-		}
-
-
-		// Copy 4 corners
-		for (c = 0; c < Image->Bpp; c++) {
-			Data[c] = Image->Data[c];
-			Data[Image->Bps - Image->Bpp + c] = Image->Data[Image->Bps - Image->Bpp + c];
-			Data[(Image->Height - 1) * Image->Bps + c] = Image->Data[(Image->Height - 1) * Image->Bps + c];
-			Data[Image->Height * Image->Bps - Image->Bpp + c] = 
-				Image->Data[Image->Height * Image->Bps - Image->Bpp + c];
-		}
-
-
-		// If we only copy the edge pixels, then they receive no filtering, making them
-		//	look out of place after several passes of an image.  So we filter the edge
-		//	rows/columns, duplicating the edge pixels for one side of the "matrix".
-
-		// First row
-		for (x = 1; x < (ILint)Image->Width-1; x++) {
-			if (RegionMask) {
-				if (!RegionMask[x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
+				if (!Old)
+					iNeighbours(x, y, Image->Width, Image->Height, Pixels);
+				else if (!iOldNeighbours(x, y, Image->Width, Image->Height, Pixels))
 					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[(x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[x * Image->Bpp + c] * matrix[1]+
-						Image->Data[(x+1) * Image->Bpp + c] * matrix[2]+
-						Image->Data[(x-1) * Image->Bpp + c] * matrix[3]+
-						Image->Data[x * Image->Bpp + c] * matrix[4]+
-						Image->Data[(x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[6]+
-						Image->Data[(Image->Width + (x  )) * Image->Bpp + c] * matrix[7]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[x * Image->Bpp + c] = 255;
-					else
-						Data[x * Image->Bpp + c] = Temp;
-			}
-		}
-
-		// Last row
-		y = (Image->Height - 1) * Image->Bps;
-		for (x = 1; x < (ILint)Image->Width-1; x++) {
-			if (RegionMask) {
-				if (!RegionMask[(Image->Height - 1) * Image->Width + x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
-					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + (x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[y - Image->Bps + x * Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + (x+1) * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[3]+
-						Image->Data[y + x * Image->Bpp + c] * matrix[4]+
-						Image->Data[y + (x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[6]+
-						Image->Data[y + x * Image->Bpp + c] * matrix[7]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + x * Image->Bpp + c] = 255;
-					else
-						Data[y + x * Image->Bpp + c] = Temp;
-			}
-		}
 
-		// Left side
-		for (i = 1, y = Image->Bps; i < Image->Height-1; i++, y += Image->Bps) {
-			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp]) {
-					Data[y + c] = Image->Data[y + c];
-					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + c] = 255;
-					else
-						Data[y + c] = Temp;
-			}
-		}
-
-		// Right side
-		for (i = 1, y = Image->Bps * 2 - Image->Bpp; i < Image->Height-1; i++, y += Image->Bps) {
-			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp + (Image->Width - 1)]) {
-					for (c = 0; c < Image->Bpp; c++) {
-						Data[y + c] = Image->Data[y + c];
+				for (c = 0; c < Samples; c++) {
+					Num = 0.0;
+					for (i = 0; i < 9; i++) {
+						if (matrix[i] != 0)
+							Num += iluGetSample(Plane + Pixels[i] * Size + c * Image->Bpc, Image->Type) * matrix[i];
 					}
-					continue;
+					Num = fabs((Num / (ILdouble)scale) + Bias);
+					iluSetSample(Dest + c * Image->Bpc, Image->Type, Integer ? floor(Num) : Num);
 				}
 			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + c] = 255;
-					else
-						Data[y + c] = Temp;
-			}
 		}
-
-		// Go to next "plane".
-		Image->Data += Image->SizeOfPlane;
-		Data += Image->SizeOfPlane;
 	}
 
-	ifree(RegionMask);
-
-	// Restore original data.
-	Image->Data = ImgData;
-	Data = NewData;
-
 	return Data;
 }
 
 
-ILboolean ILAPIENTRY iluEdgeDetectP()
+// Filters the current image Iter times.
+static ILboolean iFilterCurImage(const ILint *matrix, ILint scale, ILint bias, ILboolean FilterAlpha, ILboolean Old, ILuint Iter)
 {
-	ILubyte		*HPass, *VPass;
-	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILimage	*Image;
+	ILubyte	*RegionMask, *Data, *Last = NULL;
+	ILuint	i;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
+	if (Iter == 0)
+		return IL_TRUE;
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
-
-	HPass = Filter(iluCurImage, filter_h_prewitt, filter_h_prewitt_scale, filter_h_prewitt_bias);
-	VPass = Filter(iluCurImage, filter_v_prewitt, filter_v_prewitt_scale, filter_v_prewitt_bias);
-	if (!HPass || !VPass) {
-		ifree(HPass);
-		ifree(VPass);
+	if (!iScanFill(&RegionMask))
+		return IL_FALSE;
+	Image = iFilterSource(iluCurImage);
+	if (Image == NULL) {
+		ifree(RegionMask);
 		return IL_FALSE;
 	}
 
-	// Combine the two passes
-	//	Optimization by Matt Denham
-	for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		if (HPass[i] == 0)
-			iluCurImage->Data[i] = VPass[i];
-		else if (VPass[i] == 0)
-			iluCurImage->Data[i] = HPass[i];
-		else
-			iluCurImage->Data[i] = (ILubyte)sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+	// The pixels are replaced only once all went well.
+	Data = Image->Data;
+	for (i = 0; i < Iter; i++) {
+		Last = Filter(Image, matrix, scale, bias, FilterAlpha, Old, RegionMask);
+		if (Image->Data != Data)
+			ifree(Image->Data);
+		if (Last == NULL)
+			break;
+		Image->Data = Last;
 	}
+	Image->Data = Data;
 
-	/*for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		iluCurImage->Data[i] = (ILubyte)sqrt(HPass[i]*HPass[i]+VPass[i]*VPass[i]);
-	}*/
-	
-	ifree(HPass);
-	ifree(VPass);
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	ifree(RegionMask);
+	return iFilterResult(iluCurImage, Image, Last);
 }
 
 
-ILboolean ILAPIENTRY iluEdgeDetectS()
+// Combines two passes of a filter over the current image.
+static ILboolean iEdgeDetect(const ILint *h_matrix, const ILint *v_matrix)
 {
-	ILubyte		*HPass, *VPass;
-	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILimage		*Image;
+	ILubyte		*HPass, *VPass, *RegionMask;
+	ILuint		i, c, NumPix, Size, Samples;
+	ILdouble	H, V;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -482,167 +278,72 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+	if (!iScanFill(&RegionMask))
+		return IL_FALSE;
+	Image = iFilterSource(iluCurImage);
+	if (Image == NULL) {
+		ifree(RegionMask);
+		return IL_FALSE;
 	}
 
-	HPass = Filter(iluCurImage, filter_h_sobel, filter_h_sobel_scale, filter_h_sobel_bias);
-	VPass = Filter(iluCurImage, filter_v_sobel, filter_v_sobel_scale, filter_v_sobel_bias);
+	HPass = Filter(Image, h_matrix, 1, 0, IL_FALSE, IL_FALSE, RegionMask);
+	VPass = HPass ? Filter(Image, v_matrix, 1, 0, IL_FALSE, IL_FALSE, RegionMask) : NULL;
 	if (!HPass || !VPass) {
+		ifree(RegionMask);
 		ifree(HPass);
-		ifree(VPass);
-		return IL_FALSE;
+		return iFilterResult(iluCurImage, Image, NULL);
 	}
 
 	// Combine the two passes
-	//	Optimization by Matt Denham
-	for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		if (HPass[i] == 0)
-			iluCurImage->Data[i] = VPass[i];
-		else if (VPass[i] == 0)
-			iluCurImage->Data[i] = HPass[i];
-		else
-			iluCurImage->Data[i] = (ILubyte)sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+	NumPix = Image->Width * Image->Height * Image->Depth;
+	Size = Image->Bpp * Image->Bpc;
+	Samples = iluColourSamples(Image->Format);
+	for (i = 0; i < NumPix; i++) {
+		if (RegionMask && !RegionMask[i % (Image->Width * Image->Height)])
+			continue;
+		for (c = 0; c < Samples; c++) {
+			H = iluGetSample(HPass + i * (ILsizei)Size + c * Image->Bpc, Image->Type);
+			V = iluGetSample(VPass + i * (ILsizei)Size + c * Image->Bpc, Image->Type);
+			iluSetSample(HPass + i * (ILsizei)Size + c * Image->Bpc, Image->Type, sqrt(H * H + V * V));
+		}
 	}
 
-	/*for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		iluCurImage->Data[i] = (ILubyte)sqrt(HPass[i]*HPass[i]+VPass[i]*VPass[i]);
-	}*/
-	
-	ifree(HPass);
+	ifree(RegionMask);
 	ifree(VPass);
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterResult(iluCurImage, Image, HPass);
 }
 
 
-ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
+ILboolean ILAPIENTRY iluEdgeDetectP()
 {
-	ILubyte		*Data;
-	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	return iEdgeDetect(filter_h_prewitt, filter_v_prewitt);
+}
 
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
-	for (i = 0; i < Iter; i++) {
-		Data = Filter(iluCurImage, filter_average, filter_average_scale, filter_average_bias);
-		if (!Data)
-			return IL_FALSE;
-		ifree(iluCurImage->Data);
-		iluCurImage->Data = Data;
-	}
+ILboolean ILAPIENTRY iluEdgeDetectS()
+{
+	return iEdgeDetect(filter_h_sobel, filter_v_sobel);
+}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
 
-	return IL_TRUE;
+ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
+{
+	return iFilterCurImage(filter_average, filter_average_scale, filter_average_bias, IL_TRUE, IL_TRUE, Iter);
 }
 
 
 ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 {
-	ILubyte		*Data;
-	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
-	for (i = 0; i < Iter; i++) {
-		Data = Filter(iluCurImage, filter_gaussian, filter_gaussian_scale, filter_gaussian_bias );
-		if (!Data)
-			return IL_FALSE;
-		ifree(iluCurImage->Data);
-		iluCurImage->Data = Data;
-	}
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterCurImage(filter_gaussian, filter_gaussian_scale, filter_gaussian_bias, IL_TRUE, IL_TRUE, Iter);
 }
 
 
 ILboolean ILAPIENTRY iluEmboss()
 {
-	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
-	Data = Filter(iluCurImage, filter_emboss, filter_emboss_scale, filter_emboss_bias);
-	if (!Data)
-		return IL_FALSE;
-	ifree(iluCurImage->Data);
-	iluCurImage->Data = Data;
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterCurImage(filter_emboss, filter_emboss_scale, filter_emboss_bias, IL_FALSE, IL_TRUE, 1);
 }
 
+
 /*ILboolean ILAPIENTRY iluEmboss()
 {
 	ILuint	x, y, c, i = 0;
@@ -677,52 +378,18 @@ ILboolean ILAPIENTRY iluEmboss()
 
 ILboolean ILAPIENTRY iluEdgeDetectE()
 {
-	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
-	Data = Filter(iluCurImage, filter_embossedge, filter_embossedge_scale, filter_embossedge_bias);
-	if (!Data)
-		return IL_FALSE;
-	ifree(iluCurImage->Data);
-	iluCurImage->Data = Data;
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterCurImage(filter_embossedge, filter_embossedge_scale, filter_embossedge_bias, IL_FALSE, IL_FALSE, 1);
 }
 
+
 ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 {
-	ILuint		i;
-	ILint		alpha;
+	ILubyte	*Data;
+	ILuint	i, NumPix, Size, Bpc;
+	ILenum	Type;
 
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) ) {
+	if (iluCurImage == NULL || scale != scale) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -731,12 +398,13 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 	{
 		case IL_BGRA:
 		case IL_RGBA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				alpha = (ILint)(iluCurImage->Data[i+3] * scale);
-				if (alpha > UCHAR_MAX) alpha = UCHAR_MAX;
-				if (alpha < 0) alpha = 0;
-				iluCurImage->Data[i+3] = (ILubyte)alpha;
-			}
+		case IL_LUMINANCE_ALPHA:
+		case IL_ALPHA:
+			Data = iluCurImage->Data;
+			NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
+			Bpc = iluCurImage->Bpc;
+			Size = iluCurImage->Bpp * Bpc;
+			Type = iluCurImage->Type;
 			break;
 
 		case IL_COLOUR_INDEX:
@@ -744,14 +412,12 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 			{
 				case IL_PAL_RGBA32:
 				case IL_PAL_BGRA32:
-					for (i = 0; i < iluCurImage->Pal.PalSize; i += ilGetInteger(IL_PALETTE_BPP)) {
-						alpha = (ILint)(iluCurImage->Pal.Palette[i+3] * scale);
-						if (alpha > UCHAR_MAX) alpha = UCHAR_MAX;
-						if (alpha < 0) alpha = 0;
-						iluCurImage->Pal.Palette[i+3] = (ILubyte)alpha;
-					}
+					Data = iluCurImage->Pal.Palette;
+					NumPix = iluCurImage->Pal.PalSize / 4;
+					Bpc = 1;
+					Size = 4;
+					Type = IL_UNSIGNED_BYTE;
 					break;
-
 				default:
 					ilSetError(ILU_ILLEGAL_OPERATION);
 					return IL_FALSE;
@@ -763,9 +429,15 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 			return IL_FALSE;
 	}
 
+	// The alpha value is the last one of a pixel.
+	Data += Size - Bpc;
+	for (i = 0; i < NumPix; i++, Data += Size)
+		iluSetSample(Data, Type, iluGetSample(Data, Type) * scale);
+
 	return IL_TRUE;
 }
 
+
 // Everything here was taken from "Grafica Obscura",
 //	found at http://www.sgi.com/grafica/matrix/index.html
 
@@ -773,11 +445,7 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 // @TODO:  fast float to byte
 //! Scales image colours
 ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
-	ILuint		i;
-	ILint		red, grn, blu, grey;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr, NumPix;
-	ILdouble	*DblPtr;
+	ILdouble	Scale[3] = { r, g, b };
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -785,144 +453,10 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 		return IL_FALSE;
 	}
 
-	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) ) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	switch (iluCurImage->Format)
-	{
-		case IL_RGB:
-		case IL_RGBA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				red = (ILint)(iluCurImage->Data[i] * r);
-				grn = (ILint)(iluCurImage->Data[i+1] * g);
-				blu = (ILint)(iluCurImage->Data[i+2] * b);
-				if (red > UCHAR_MAX) red = UCHAR_MAX;
-				if (red < 0) red = 0;
-				if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-				if (grn < 0) grn = 0;
-				if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-				if (blu < 0) blu = 0;
-				iluCurImage->Data[i]   = (ILubyte)red;
-				iluCurImage->Data[i+1] = (ILubyte)grn;
-				iluCurImage->Data[i+2] = (ILubyte)blu;
-			}
-			break;
-
-		case IL_BGR:
-		case IL_BGRA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				red = (ILint)(iluCurImage->Data[i+2] * r);
-				grn = (ILint)(iluCurImage->Data[i+1] * g);
-				blu = (ILint)(iluCurImage->Data[i] * b);
-				if (red > UCHAR_MAX) red = UCHAR_MAX;
-				if (red < 0) red = 0;
-				if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-				if (grn < 0) grn = 0;
-				if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-				if (blu < 0) blu = 0;
-				iluCurImage->Data[i+2] = (ILubyte)red;
-				iluCurImage->Data[i+1] = (ILubyte)grn;
-				iluCurImage->Data[i]   = (ILubyte)blu;
-			}
-			break;
-
-		case IL_LUMINANCE:
-		case IL_LUMINANCE_ALPHA:
-			NumPix = iluCurImage->SizeOfData / (iluCurImage->Bpc*iluCurImage->Bpp);
-			switch (iluCurImage->Bpc) {
-				case 1:
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(iluCurImage->Data[i] * r);
-						if (grey > UCHAR_MAX) grey = UCHAR_MAX;
-						if (grey < 0) grey = 0;
-						iluCurImage->Data[i] = (ILubyte)grey;
-					}
-					break;
-
-				case 2:
-					ShortPtr = (ILushort*)iluCurImage->Data;
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(ShortPtr[i] * r);
-						if (grey > USHRT_MAX) grey = USHRT_MAX;
-						if (grey < 0) grey = 0;
-						ShortPtr[i] = (ILushort)grey;
-					}
-					break;
-
-				case 4:
-					IntPtr = (ILuint*)iluCurImage->Data;
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(IntPtr[i] * r);
-						if (grey < 0) grey = 0;
-						IntPtr[i] = (ILuint)grey;
-					}
-					break;
-
-				case 8:
-					DblPtr = (ILdouble*)iluCurImage->Data;
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						DblPtr[i] = DblPtr[i] * r;
-					}
-					break;
-			}
-			break;
-
-		case IL_COLOUR_INDEX:
-			switch (iluCurImage->Pal.PalType)
-			{
-				case IL_PAL_RGB24:
-				case IL_PAL_RGB32:
-				case IL_PAL_RGBA32:
-					for (i = 0; i < iluCurImage->Pal.PalSize; i += ilGetInteger(IL_PALETTE_BPP)) {
-						red = (ILint)(iluCurImage->Pal.Palette[i] * r);
-						grn = (ILint)(iluCurImage->Pal.Palette[i+1] * g);
-						blu = (ILint)(iluCurImage->Pal.Palette[i+2] * b);
-						if (red > UCHAR_MAX) red = UCHAR_MAX;
-						if (red < 0) red = 0;
-						if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-						if (grn < 0) grn = 0;
-						if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-						if (blu < 0) blu = 0;
-						iluCurImage->Pal.Palette[i]   = (ILubyte)red;
-						iluCurImage->Pal.Palette[i+1] = (ILubyte)grn;
-						iluCurImage->Pal.Palette[i+2] = (ILubyte)blu;
-					}
-					break;
-
-				case IL_PAL_BGR24:
-				case IL_PAL_BGR32:
-				case IL_PAL_BGRA32:
-					for (i = 0; i < iluCurImage->Pal.PalSize; i += ilGetInteger(IL_PALETTE_BPP)) {
-						red = (ILint)(iluCurImage->Pal.Palette[i+2] * r);
-						grn = (ILint)(iluCurImage->Pal.Palette[i+1] * g);
-						blu = (ILint)(iluCurImage->Pal.Palette[i] * b);
-						if (red > UCHAR_MAX) red = UCHAR_MAX;
-						if (red < 0) red = 0;
-						if (grn > UCHAR_MAX) grn = UCHAR_MAX;
-						if (grn < 0) grn = 0;
-						if (blu > UCHAR_MAX) blu = UCHAR_MAX;
-						if (blu < 0) blu = 0;
-						iluCurImage->Pal.Palette[i+2]   = (ILubyte)red;
-						iluCurImage->Pal.Palette[i+1] = (ILubyte)grn;
-						iluCurImage->Pal.Palette[i] = (ILubyte)blu;
-					}
-					break;
-
-
-				default:
-					ilSetError(ILU_ILLEGAL_OPERATION);
-					return IL_FALSE;
-			}
-			break;
-
-		default:
-			ilSetError(ILU_ILLEGAL_OPERATION);
-			return IL_FALSE;
-	}
-
-	return IL_TRUE;
+	return iluEachColour(iluCurImage, NULL, [&](ILdouble *Colour, ILuint Num, ILdouble) {
+		for (ILuint c = 0; c < Num; c++)
+			Colour[c] *= Scale[c];
+	});
 }
 
 
@@ -934,54 +468,23 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 
 ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 {
-	ILfloat		Table[256];
-	ILuint		i, NumPix;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	for (i = 0; i < 256; i++) {
-		Table[i] = (ILfloat)pow(i / 255.0, 1.0 / Gamma);
+	if (!(Gamma > 0.0f)) {
+		ilSetError(ILU_INVALID_PARAM);
+		return IL_FALSE;
 	}
 
-	// Do we need to clamp here?
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		for (i = 0; i < iluCurImage->Pal.PalSize; i++) {
-			iluCurImage->Pal.Palette[i] = (ILubyte)(Table[iluCurImage->Pal.Palette[i]] * 255);
-		}
-	}
-	else {
-		// Not too sure if this is the correct way of handling multiple bpc's.
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				for (i = 0; i < iluCurImage->SizeOfData; i++) {
-					iluCurImage->Data[i] = (ILubyte)(Table[iluCurImage->Data[i]] * UCHAR_MAX);
-				}
-				break;
-			case 2:
-				NumPix = iluCurImage->SizeOfData / 2;
-				ShortPtr = (ILushort*)iluCurImage->Data;
-				for (i = 0; i < NumPix; i++) {
-					ShortPtr[i] = (ILushort)(Table[ShortPtr[i] >> 8] * USHRT_MAX);
-				}
-				break;
-			case 4:
-				NumPix = iluCurImage->SizeOfData / 4;
-				IntPtr = (ILuint*)iluCurImage->Data;
-				for (i = 0; i < NumPix; i++) {
-					IntPtr[i] = (ILuint)(Table[IntPtr[i] >> 24] * UINT_MAX);
-				}
-				break;
+	return iluEachColour(iluCurImage, NULL, [=](ILdouble *Colour, ILuint Num, ILdouble Max) {
+		for (ILuint c = 0; c < Num; c++) {
+			if (Colour[c] > 0.0)
+				Colour[c] = pow(Colour[c] / Max, 1.0 / Gamma) * Max;
 		}
-	}
-
-	return IL_TRUE;
+	});
 }
 
 
@@ -991,73 +494,18 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 //
 
 
-void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
+ILboolean iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 {
-	ILubyte	*Data = Image->Data;
-	ILuint	i;
-	ILubyte	r, g, b;
-
-	switch (Image->Format)
-	{
-		case IL_RGB:
-		case IL_RGBA:
-			for (i = 0; i < Image->SizeOfData; ) {
-				r = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				g = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				Data[i]   = r;
-				Data[i+1] = g;
-				Data[i+2] = b;
-				i += Image->Bpp;
-			}
-			break;
-
-		case IL_BGR:
-		case IL_BGRA:
-			for (i = 0; i < Image->SizeOfData; ) {
-				r = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				g = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				Data[i]   = b;
-				Data[i+1] = g;
-				Data[i+2] = r;
-				i += Image->Bpp;
-			}
-			break;
-
-		default:
-			ilSetError(ILU_ILLEGAL_OPERATION);
-			return;
+	if (iluColourSamples(Image->Format) != 3) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
 	}
 
-	return;
-}
-
-
-void iIdentity(ILfloat *Matrix)
-{
-    *Matrix++ = 1.0;    // row 1
-    *Matrix++ = 0.0;
-    *Matrix++ = 0.0;
-    //*Matrix++ = 0.0;
-    *Matrix++ = 0.0;    // row 2
-    *Matrix++ = 1.0;
-    *Matrix++ = 0.0;
-    //*Matrix++ = 0.0;
-    *Matrix++ = 0.0;    // row 3
-    *Matrix++ = 0.0;
-    *Matrix++ = 1.0;
-    //*Matrix++ = 0.0;
-    /**Matrix++ = 0.0;    // row 4
-    *Matrix++ = 0.0;
-    *Matrix++ = 0.0;
-    *Matrix++ = 1.0;*/
+	return iluEachColour(Image, NULL, [&](ILdouble *Colour, ILuint, ILdouble) {
+		ILdouble	r = Colour[0], g = Colour[1], b = Colour[2];
+		for (ILuint c = 0; c < 3; c++)
+			Colour[c] = r * Mat[0][c] + g * Mat[1][c] + b * Mat[2][c];// + Mat[3][c];
+	});
 }
 
 
@@ -1098,9 +546,7 @@ ILboolean ILAPIENTRY iluSaturate4f(ILfloat r, ILfloat g, ILfloat b, ILfloat Satu
 		return IL_FALSE;
 	}
 
-	iApplyMatrix(iluCurImage, Mat);
-
-	return IL_TRUE;
+	return iApplyMatrix(iluCurImage, Mat);
 }
 
 
@@ -1108,56 +554,18 @@ ILboolean ILAPIENTRY iluSaturate4f(ILfloat r, ILfloat g, ILfloat b, ILfloat Satu
 //! Funny as hell filter that I stumbled upon accidentally
 ILboolean ILAPIENTRY iluAlienify(void)
 {
-	ILfloat	Mat[3][3];
-	ILubyte	*Data;
-	ILuint	i;
-
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	if (iluCurImage == NULL || iluColourSamples(iluCurImage->Format) != 3) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	Data = iluCurImage->Data;
-
-	iIdentity((ILfloat*)Mat);
 
-	switch (iluCurImage->Format)
-	{
-		case IL_BGR:
-		case IL_BGRA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				Data[i+2] = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				Data[i+1] = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				Data[i]   = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-			}
-		break;
-
-		case IL_RGB:
-		case IL_RGBA:
-			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-				Data[i]   = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				Data[i+1] = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				Data[i+2] = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-			}
-		break;
-
-		default:
-			//ilSetError(ILU_ILLEGAL_OPERATION);
-			return IL_FALSE;
-	}
-
-	return IL_TRUE;
+	return iluEachColour(iluCurImage, NULL, [](ILdouble *Colour, ILuint, ILdouble) {
+		Colour[0] = Colour[2];
+	});
 }
 
 
-
-
 // Everything here was taken from
 //	http://bae.fse.missouri.edu/luw/course/image/project1/project1.html
 //	and http://www.sgi.com/grafica/interp/index.html
@@ -1166,26 +574,20 @@ ILboolean ILAPIENTRY iluAlienify(void)
 
 void iIntExtImg(ILimage *Image1, ILimage *Image2, ILfloat a)
 {
-	ILuint	i;
-	ILint	d;
-	ILubyte	*Data1, *Data2;
+	ILsizei		i;
+	ILdouble	d;
+	ILubyte		*Data1, *Data2;
 
 	Data1 = Image1->Data;
 	Data2 = Image2->Data;
 
-	for (i = 0; i < Image2->SizeOfData; i++) {
-		d = (ILint)((1 - a) * *Data1 + a * *Data2);
-		// Limit a pixel value to the range [0, 255]
-		if (d < 0) 
-			d = 0;
-		else if (d > 255)
-			d = 255;
-		*Data2 = d;
-
-		Data1++;
-		Data2++;
+	for (i = 0; i < Image2->SizeOfData; i += Image2->Bpc) {
+		d = (1 - (ILdouble)a) * iluGetSample(Data1 + i, Image2->Type) + (ILdouble)a * iluGetSample(Data2 + i, Image2->Type);
+		if (iluTypeMax(Image2->Type) > 1.0)
+			d = floor(d);
+		iluSetSample(Data2 + i, Image2->Type, d);
 	}
-			
+
 	return;
 }
 
@@ -1222,29 +624,17 @@ void iIntExtImg(ILimage *Image1, ILimage *Image2, ILfloat a)
 // Works best when Contrast is in the range [-0.5, 1.7].
 ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 {
-	ILimage	*Grey;
-	ILuint	i;
-
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
-		ilSetError(IL_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	Grey = ilNewImage(iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Bpc);
-	if (Grey == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	// Make Grey all 127's
-	for (i = 0; i < Grey->SizeOfData; i++) {
-		Grey->Data[i] = 127;
-	}
-
-	iIntExtImg(Grey, iluCurImage, Contrast);
-	ilCloseImage(Grey);
-
-	return IL_TRUE;
+	// Interpolates between the image and a grey one.
+	return iluEachColour(iluCurImage, NULL, [=](ILdouble *Colour, ILuint Num, ILdouble Max) {
+		for (ILuint c = 0; c < Num; c++)
+			Colour[c] = (1.0 - Contrast) * (Max * 127.0 / 255.0) + (ILdouble)Contrast * Colour[c];
+	});
 }
 
 
@@ -1252,68 +642,48 @@ ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 // Blurs when Factor is in the range [0.0, 1.0].
 ILboolean ILAPIENTRY iluSharpen(ILfloat Factor, ILuint Iter)
 {
-	ILimage	*Blur, *CurImage;  // iluBlur() changes iluCurImage
+	ILimage	*Image, *Result, Blur;
+	ILubyte	*RegionMask;
 	ILuint	i;
-	
-	CurImage = ilGetCurImage();
-	if (CurImage == NULL) {
+
+	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL || Factor != Factor) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
+	if (Factor == 1.0f || Iter == 0)
+		return IL_TRUE;
 
-	Blur = ilNewImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Bpc);
-	if (Blur == NULL) {
+	if (!iScanFill(&RegionMask))
+		return IL_FALSE;
+	Image = iFilterSource(iluCurImage);
+	if (Image == NULL) {
+		ifree(RegionMask);
 		return IL_FALSE;
 	}
-	ilCopyImageAttr(Blur, CurImage);
 
-	ilCopyPixels(0, 0, 0, CurImage->Width, CurImage->Height, 1, CurImage->Format, CurImage->Type, Blur->Data);
-	ilSetCurImage(Blur);
-	iluBlurGaussian(1);
+	Blur = *Image;
+	Blur.Data = Filter(Image, filter_gaussian, filter_gaussian_scale, filter_gaussian_bias, IL_TRUE, IL_TRUE, RegionMask);
+	ifree(RegionMask);
+	if (Blur.Data == NULL)
+		return iFilterResult(iluCurImage, Image, NULL);
 
 	for (i = 0; i < Iter; i++) {
-		iIntExtImg(Blur, CurImage, Factor);
+		iIntExtImg(&Blur, Image, Factor);
 	}
 
-	ilCloseImage(Blur);
-	ilSetCurImage(CurImage);
-
-	return IL_TRUE;
+	ifree(Blur.Data);
+	return iFilterResult(iluCurImage, Image, Image->Data);
 }
 
 
 ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias) {
-	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-	ILimage		*iluCurImage = ilGetCurImage();
-	
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
+	if (matrix == NULL || scale == 0) {
+		ilSetError(ILU_INVALID_PARAM);
 		return IL_FALSE;
 	}
-	
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	} else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-	
-	Data = Filter(iluCurImage, matrix, scale, bias);
-	if (!Data)
-		return IL_FALSE;
-	ifree(iluCurImage->Data);
-	iluCurImage->Data = Data;
-	
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-	
-	return IL_TRUE;
+
+	return iFilterCurImage(matrix, scale, bias, IL_TRUE, IL_FALSE, 1);
 }
 
 
@@ -1373,7 +743,7 @@ ILboolean ILAPIENTRY iluSepia(void)
 		break;
 
 		default:
-			//ilSetError(ILU_ILLEGAL_OPERATION);
+			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
diff --git a/DevIL/src-ILU/src/ilu_internal.cpp b/DevIL/src-ILU/src/ilu_internal.cpp
index eaf7115..d23a056 100644
--- a/DevIL/src-ILU/src/ilu_internal.cpp
+++ b/DevIL/src-ILU/src/ilu_internal.cpp
@@ -21,6 +21,92 @@ ILint ilRound(ILfloat Num) {
 }
 
 
+// Returns Image with as many colours as a palette holds, its palette being laid out like Pal.
+ILimage *iluIndexedImage(ILimage *Image, ILpal *Pal)
+{
+	ILimage	*Indexed = iConvertImage(Image, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+	ILpal	*New;
+
+	if (Indexed == NULL)
+		return NULL;
+	if (ilIsValidPal(Pal) && Indexed->Pal.PalType != Pal->PalType) {
+		New = iConvertPal(&Indexed->Pal, Pal->PalType);
+		if (New == NULL) {
+			ilCloseImage(Indexed);
+			return NULL;
+		}
+		ifree(Indexed->Pal.Palette);
+		Indexed->Pal = *New;
+		ifree(New);
+	}
+	return Indexed;
+}
+
+
+// Returns an image of the given size, like Image in everything else.  Its pixels are undefined.
+ILimage *iluNewSized(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth)
+{
+	ILimage	*New = (ILimage*)icalloc(1, sizeof(ILimage));
+
+	if (New == NULL || !ilCopyImageAttr(New, Image) ||
+		!ilResizeImage(New, Width, Height, Depth, Image->Bpp, Image->Bpc)) {
+		ilCloseImage(New);
+		return NULL;
+	}
+	return New;
+}
+
+
+// Fills the image with the clear colour.  The palette of an indexed image gets that colour if it does not have it
+//  yet; a full palette provides the nearest one.
+ILboolean iluClearBackground(ILimage *Image)
+{
+	ILubyte	Clear[4], *Pal;
+	ILuint	i, c, Count, Entry, Best = 0, BestDist, Dist, Alpha;
+	ILpal	*New = &Image->Pal;
+
+	if (Image->Format != IL_COLOUR_INDEX)
+		return ilClearImage_(Image);
+	if (!ilIsValidPal(New)) {
+		memset(Image->Data, 0, Image->SizeOfData);
+		return IL_TRUE;
+	}
+
+	ilGetClear(Clear, ilGetPalBaseType(New->PalType) == IL_BGR || ilGetPalBaseType(New->PalType) == IL_BGRA ? IL_BGRA : IL_RGBA, IL_UNSIGNED_BYTE);
+	Alpha = New->PalType == IL_PAL_RGBA32 || New->PalType == IL_PAL_BGRA32;
+	Entry = ilGetBppPal(New->PalType);
+	Count = New->PalSize / Entry;
+	if (Count > 256)
+		Count = 256;
+
+	BestDist = 0xFFFFFFFF;
+	for (i = 0; i < Count; i++) {
+		Dist = 0;
+		for (c = 0; c < 3 + Alpha; c++)
+			Dist += ((ILint)New->Palette[i * Entry + c] - Clear[c]) * ((ILint)New->Palette[i * Entry + c] - Clear[c]);
+		if (Dist < BestDist) {
+			BestDist = Dist;
+			Best = i;
+		}
+	}
+
+	if (BestDist != 0 && Count < 256) {
+		Pal = (ILubyte*)ialloc((Count + 1) * Entry);
+		if (Pal == NULL)
+			return IL_FALSE;
+		memcpy(Pal, New->Palette, Count * Entry);
+		memcpy(Pal + Count * Entry, Clear, Entry);
+		ifree(New->Palette);
+		New->Palette = Pal;
+		New->PalSize = (Count + 1) * Entry;
+		Best = Count;
+	}
+
+	memset(Image->Data, Best, Image->SizeOfData);
+	return IL_TRUE;
+}
+
+
 // Image gets the pixels and the palette of New, which is closed.  Everything else stays as it is, apart from
 //  what only belonged to the old pixels.
 void iluReplaceImageData(ILimage *Image, ILimage *New)
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 856b8c1..9c0808a 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -3,99 +3,45 @@
 #include "ilu_states.h"
 #include <float.h>
 #include <limits.h>
+#include <algorithm>
+#include "ilu_samples.h"
 
 
-ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
-	ILuint	x, y, c, OldBps;
-	ILubyte	*Data;
-	ILenum	Origin;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
-		return IL_FALSE;
-	}
-
-	OldBps = iluCurImage->Bps;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, 1, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width, Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		free(Data);
-		return IL_FALSE;
-	}
-	iluCurImage->Origin = Origin;
-
-	// @TODO:  Optimize!  (Especially XOff * iluCurImage->Bpp...get rid of it!)
-	for (y = 0; y < iluCurImage->Height; y++) {
-		for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-			for (c = 0; c < iluCurImage->Bpp; c++) {
-				iluCurImage->Data[y * iluCurImage->Bps + x + c] = 
-					Data[(y + YOff) * OldBps + x + XOff * iluCurImage->Bpp + c];
-			}
+// Copies the block at the offsets out of Image into New, whose size the block has.
+static void iluCopyBlock(ILimage *New, ILuint DestX, ILuint DestY, ILimage *Image, ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
+{
+	ILuint	y, z;
+	ILsizei	PixSize = (ILsizei)Image->Bpp * Image->Bpc;
+
+	for (z = 0; z < Depth; z++) {
+		for (y = 0; y < Height; y++) {
+			memcpy(New->Data + z * (ILsizei)New->SizeOfPlane + (y + DestY) * (ILsizei)New->Bps + DestX * PixSize,
+				Image->Data + (z + ZOff) * (ILsizei)Image->SizeOfPlane + (y + YOff) * (ILsizei)Image->Bps + XOff * PixSize,
+				Width * PixSize);
 		}
 	}
-
-	ifree(Data);
-
-	return IL_TRUE;
+	return;
 }
 
 
 ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILuint	x, y, z, c, OldBps, OldPlane;
-	ILubyte	*Data;
-	ILenum	Origin;
+	ILimage	*New;
 
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	// The block has to lie within the image.
+	if (Width == 0 || Height == 0 || Depth == 0 ||
+		Width > iluCurImage->Width || Height > iluCurImage->Height || Depth > iluCurImage->Depth ||
+		XOff > iluCurImage->Width - Width || YOff > iluCurImage->Height - Height || ZOff > iluCurImage->Depth - Depth) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height || Depth > iluCurImage->Depth) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
+	New = iluNewSized(iluCurImage, Width, Height, Depth);
+	if (New == NULL)
 		return IL_FALSE;
-	}
 
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
-		return IL_FALSE;
-	}
-
-	OldBps = iluCurImage->Bps;
-	OldPlane = iluCurImage->SizeOfPlane;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width - XOff, Height - YOff, Depth - ZOff, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		ifree(Data);
-	}
-	iluCurImage->Origin = Origin;
-
-	for (z = 0; z < iluCurImage->Depth; z++) {
-		for (y = 0; y < iluCurImage->Height; y++) {
-			for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					iluCurImage->Data[z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps + x + c] = 
-						Data[(z + ZOff) * OldPlane + (y + YOff) * OldBps + (x + XOff) + c];
-				}
-			}
-		}
-	}
-
-	ifree(Data);
+	iluCopyBlock(New, 0, 0, iluCurImage, XOff, YOff, ZOff, Width, Height, Depth);
+	iluReplaceImageData(iluCurImage, New);
 
 	return IL_TRUE;
 }
@@ -103,8 +49,14 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 
 ILboolean ILAPIENTRY iluCrop(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
 {
-	if (ZOff <= 1)
-		return iluCrop2D(XOff, YOff, Width, Height);
+	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	if (ZOff <= 1)  // All planes are cropped.
+		return iluCrop3D(XOff, YOff, 0, Width, Height, iluCurImage->Depth);
 	return iluCrop3D(XOff, YOff, ZOff, Width, Height, Depth);
 }
 
@@ -112,9 +64,8 @@ ILboolean ILAPIENTRY iluCrop(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width
 //! Enlarges the canvas
 ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILubyte	*Data/*, Clear[4]*/;
-	ILuint	x, y, z, OldBps, OldH, OldD, OldPlane, AddX, AddY;
-	ILenum	Origin;
+	ILimage	*New;
+	ILuint	AddX, AddY;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -185,47 +136,16 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 		}
 	}
 
-	AddX *= iluCurImage->Bpp;
-
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
+	New = iluNewSized(iluCurImage, Width, Height, Depth);
+	if (New == NULL)
 		return IL_FALSE;
-	}
 
-	// Preserve old data.
-	OldPlane = iluCurImage->SizeOfPlane;
-	OldBps   = iluCurImage->Bps;
-	OldH     = iluCurImage->Height;
-	OldD     = iluCurImage->Depth;
-	Origin   = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, OldD, iluCurImage->Format, iluCurImage->Type, Data);
-
-	ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
-	iluCurImage->Origin = Origin;
-
-	ilClearImage();
-	/*ilGetClear(Clear);
-	if (iluCurImage->Bpp == 1) {
-		memset(iluCurImage->Data, Clear[3], iluCurImage->SizeOfData);
-	}
-	else {
-		for (x = 0; x < iluCurImage->SizeOfData; x += iluCurImage->Bpp) {
-			for (y = 0; y < iluCurImage->Bpp; y++) {
-				iluCurImage->Data[y] = Clear[y];
-			}
-		}
-	}*/
-
-	for (z = 0; z < OldD; z++) {
-		for (y = 0; y < OldH; y++) {
-			for (x = 0; x < OldBps; x++) {
-				iluCurImage->Data[z * iluCurImage->SizeOfPlane + (y + AddY) * iluCurImage->Bps + x + AddX] =
-					Data[z * OldPlane + y * OldBps + x];
-			}
-		}
+	if (!iluClearBackground(New)) {
+		ilCloseImage(New);
+		return IL_FALSE;
 	}
-
-	ifree(Data);
+	iluCopyBlock(New, AddX, AddY, iluCurImage, 0, 0, 0, iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth);
+	iluReplaceImageData(iluCurImage, New);
 
 	return IL_TRUE;
 }
@@ -267,12 +187,8 @@ ILboolean ILAPIENTRY iluMirror() {
 
 //! Inverts the alpha in the image
 ILboolean ILAPIENTRY iluInvertAlpha() {
-	ILuint		i, *IntPtr, NumPix;
+	ILuint		i, NumPix, Size;
 	ILubyte		*Data;
-	ILushort	*ShortPtr;
-	ILfloat		*FltPtr;
-	ILdouble	*DblPtr;
-	ILubyte		Bpp;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -282,50 +198,17 @@ ILboolean ILAPIENTRY iluInvertAlpha() {
 
 	if (iluCurImage->Format != IL_RGBA &&
 		iluCurImage->Format != IL_BGRA &&
+		iluCurImage->Format != IL_ALPHA &&
 		iluCurImage->Format != IL_LUMINANCE_ALPHA) {
 			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
-	Data = iluCurImage->Data;
-	Bpp = iluCurImage->Bpp;
 	NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
-
-	switch (iluCurImage->Type)
-	{
-		case IL_BYTE:
-		case IL_UNSIGNED_BYTE:
-			Data += (Bpp - 1);
-			for( i = Bpp - 1; i < NumPix; i++, Data += Bpp )
-				*(Data) = ~*(Data);
-			break;
-
-		case IL_SHORT:
-		case IL_UNSIGNED_SHORT:
-			ShortPtr = ((ILushort*)Data) + Bpp-1;	
-			for (i = Bpp - 1; i < NumPix; i++, ShortPtr += Bpp)
-				*(ShortPtr) = ~*(ShortPtr);
-			break;
-
-		case IL_INT:
-		case IL_UNSIGNED_INT:
-			IntPtr = ((ILuint*)Data) + Bpp-1;
-			for (i = Bpp - 1; i < NumPix; i++, IntPtr += Bpp)
-				*(IntPtr) = ~*(IntPtr);
-			break;
-
-		case IL_FLOAT:
-			FltPtr = ((ILfloat*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, FltPtr += Bpp)
-				*(FltPtr) = 1.0f - *(FltPtr);
-			break;
-
-		case IL_DOUBLE:
-			DblPtr = ((ILdouble*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, DblPtr += Bpp)
-				*(DblPtr) = 1.0f - *(DblPtr);
-			break;
-	}
+	Size = iluCurImage->Bpp * iluCurImage->Bpc;
+	Data = iluCurImage->Data + Size - iluCurImage->Bpc;
+	for (i = 0; i < NumPix; i++, Data += Size)
+		iluSetSample(Data, iluCurImage->Type, iluTypeMax(iluCurImage->Type) - iluGetSample(Data, iluCurImage->Type));
 
 	return IL_TRUE;
 }
@@ -334,10 +217,8 @@ ILboolean ILAPIENTRY iluInvertAlpha() {
 //! Inverts the colours in the image
 ILboolean ILAPIENTRY iluNegative()
 {
-	ILuint		i, j, c, *IntPtr, NumPix, Bpp;
-	ILubyte		*Data;
-	ILushort	*ShortPtr;
 	ILubyte		*RegionMask;
+	ILboolean	Result;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -345,87 +226,17 @@ ILboolean ILAPIENTRY iluNegative()
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		if (!iluCurImage->Pal.Palette || !iluCurImage->Pal.PalSize || iluCurImage->Pal.PalType == IL_PAL_NONE) {
-			ilSetError(ILU_ILLEGAL_OPERATION);
-			return IL_FALSE;
-		}
-		Data = iluCurImage->Pal.Palette;
-		i = iluCurImage->Pal.PalSize;
-	}
-	else {
-		Data = iluCurImage->Data;
-		i = iluCurImage->SizeOfData;
-	}
-
-	RegionMask = iScanFill();
-	
-	// @TODO:  Optimize this some.
-
-	NumPix = i / iluCurImage->Bpc;
-	Bpp = iluCurImage->Bpp;
-
-	if (RegionMask) {
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, Data += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(Data+c) = ~*(Data+c);
-					}
-				}
-				break;
-
-			case 2:
-				ShortPtr = (ILushort*)Data;
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, ShortPtr += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(ShortPtr+c) = ~*(ShortPtr+c);
-					}
-				}
-				break;
-
-			case 4:
-				IntPtr = (ILuint*)Data;
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, IntPtr += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(IntPtr+c) = ~*(IntPtr+c);
-					}
-				}
-				break;
-		}
-	}
-	else {
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				for (j = 0; j < NumPix; j++, Data++) {
-					*(Data) = ~*(Data);
-				}
-				break;
+	if (!iScanFill(&RegionMask))
+		return IL_FALSE;
 
-			case 2:
-				ShortPtr = (ILushort*)Data;
-				for (j = 0; j < NumPix; j++, ShortPtr++) {
-					*(ShortPtr) = ~*(ShortPtr);
-				}
-				break;
-
-			case 4:
-				IntPtr = (ILuint*)Data;
-				for (j = 0; j < NumPix; j++, IntPtr++) {
-					*(IntPtr) = ~*(IntPtr);
-				}
-				break;
-		}
-	}
+	Result = iluEachColour(iluCurImage, RegionMask, [](ILdouble *Colour, ILuint Num, ILdouble Max) {
+		for (ILuint c = 0; c < Num; c++)
+			Colour[c] = Max - Colour[c];
+	});
 
 	ifree(RegionMask);
 
-	return IL_TRUE;
+	return Result;
 }
 
 
@@ -434,9 +245,10 @@ ILboolean ILAPIENTRY iluNegative()
 //	Hope they don't mind too much. =]
 ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 {
-	ILint	Delta;
-	ILuint	y;
-	ILubyte	*DataPtr, *TempBuff;
+	ILdouble	Shift;
+	ILsizei		Delta;
+	ILuint		y, z;
+	ILubyte		*DataPtr, *TempBuff;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -444,28 +256,32 @@ ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 		return IL_FALSE;
 	}
 
-	TempBuff = (ILubyte*)ialloc(iluCurImage->SizeOfData);
+	if (Angle - Angle != 0) {  // Not a finite number
+		ilSetError(ILU_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	TempBuff = (ILubyte*)ialloc(iluCurImage->Bps);
 	if (TempBuff == NULL) {
 		return IL_FALSE;
 	}
 
 	for (y = 0; y < iluCurImage->Height; y++) {
-		Delta = (ILint)
+		Shift = (ILint)
 			(30 * sin((10 * Angle + y) * IL_DEGCONV) +
 			 15 * sin(( 7 * Angle + 3 * y) * IL_DEGCONV));
 
-		DataPtr = iluCurImage->Data + y * iluCurImage->Bps;
-
-		if (Delta < 0) {
-			Delta = -Delta;
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * Delta);
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * Delta, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), TempBuff, iluCurImage->Bpp * Delta);
-		}
-		else if (Delta > 0) {
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), iluCurImage->Bpp * Delta);
-			memcpy(DataPtr + iluCurImage->Bpp * Delta, TempBuff, iluCurImage->Bpp * (iluCurImage->Width - Delta));
+		// How many bytes the row moves to the right, around its end
+		Shift = fmod(Shift, (ILdouble)iluCurImage->Width);
+		if (Shift < 0)
+			Shift += iluCurImage->Width;
+		Delta = (ILsizei)Shift * iluCurImage->Bpp * iluCurImage->Bpc;
+
+		for (z = 0; z < iluCurImage->Depth; z++) {
+			DataPtr = iluCurImage->Data + z * (ILsizei)iluCurImage->SizeOfPlane + y * (ILsizei)iluCurImage->Bps;
+			memcpy(TempBuff, DataPtr, iluCurImage->Bps);
+			memcpy(DataPtr + Delta, TempBuff, iluCurImage->Bps - Delta);
+			memcpy(DataPtr, TempBuff + iluCurImage->Bps - Delta, Delta);
 		}
 	}
 
@@ -478,21 +294,17 @@ ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 // Swaps the colour order of the current image (rgb(a)->bgr(a) or vice-versa).
 //	Must be either an 8, 24 or 32-bit (coloured) image (or palette).
 ILboolean ILAPIENTRY iluSwapColours() {
-	// Use ilConvert or other like that to convert the data?
-	// and extend that function to work even on paletted data
-	
-	ILimage *img = ilGetCurImage();
+	ILimage	*img = ilGetCurImage();
+	ILubyte	*Red, *Blue, Temp;
+	ILuint	i, NumPix, c;
+	ILenum	Format;
+
 	if( img == NULL ) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Bpp == 1) {
-		if (ilGetBppPal(iluCurImage->Pal.PalType) == 0 || iluCurImage->Format != IL_COLOUR_INDEX) {
-			ilSetError(ILU_ILLEGAL_OPERATION);  // Can be luminance.
-			return IL_FALSE;
-		}
-		
+	if (img->Format == IL_COLOUR_INDEX) {
 		switch( img->Pal.PalType ) {
 			case IL_PAL_RGB24:
 				return ilConvertPal(IL_PAL_BGR24);
@@ -507,42 +319,50 @@ ILboolean ILAPIENTRY iluSwapColours() {
 			case IL_PAL_BGRA32:
 				return ilConvertPal(IL_PAL_RGBA32);
 			default:
-				ilSetError(ILU_INTERNAL_ERROR);
+				ilSetError(ILU_ILLEGAL_OPERATION);
 				return IL_FALSE;
 		}
 	}
 
 	switch( img->Format) {
 		case IL_RGB:
-			return ilConvertImage(IL_BGR, img->Type);
+			Format = IL_BGR;
+			break;
 		case IL_RGBA:
-			return ilConvertImage(IL_BGRA, img->Type);
+			Format = IL_BGRA;
+			break;
 		case IL_BGR:
-			return ilConvertImage(IL_RGB, img->Type);
+			Format = IL_RGB;
+			break;
 		case IL_BGRA:
-			return ilConvertImage(IL_RGBA, img->Type);
+			Format = IL_RGBA;
+			break;
+		default:
+			ilSetError(ILU_ILLEGAL_OPERATION);  // Can be luminance.
+			return IL_FALSE;
 	}
 
-	ilSetError(ILU_INTERNAL_ERROR);
-	return IL_FALSE;
-}
+	NumPix = img->Width * img->Height * img->Depth;
+	Red = img->Data;
+	for (i = 0; i < NumPix; i++, Red += img->Bpp * img->Bpc) {
+		Blue = Red + 2 * img->Bpc;
+		for (c = 0; c < img->Bpc; c++) {
+			Temp = Red[c];
+			Red[c] = Blue[c];
+			Blue[c] = Temp;
+		}
+	}
+	img->Format = Format;
 
+	return IL_TRUE;
+}
 
-typedef struct BUCKET { ILubyte Colours[4];  struct BUCKET *Next; } BUCKET;
 
 ILuint ILAPIENTRY iluColoursUsed()
 {
-	ILuint i, c, Bpp, ColVal, SizeData, BucketPos = 0, NumCols = 0;
-	BUCKET Buckets[8192], *Temp;
-	ILubyte ColTemp[4];
-	ILboolean Matched;
-	BUCKET *Heap[9];
-	ILuint HeapPos = 0, HeapPtr = 0, HeapSize;
-
-	imemclear(Buckets, sizeof(BUCKET) * 8192);
-	for (c = 0; c < 9; c++) {
-		Heap[c] = 0;
-	}
+	ILuint	i, NumPix, Size, NumCols = 1;
+	ILubyte	Black[4] = { 0, 0, 0, 255 };
+	const ILubyte **Pixels;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -550,117 +370,65 @@ ILuint ILAPIENTRY iluColoursUsed()
 		return 0;
 	}
 
-	Bpp = iluCurImage->Bpp;
-	SizeData = iluCurImage->SizeOfData;
-
-	// Create our miniature memory heap.
-	// I have determined that the average number of colours versus
-	//	the number of pixels is about a 1:8 ratio, so divide by 8.
-	HeapSize = IL_MAX(1, iluCurImage->SizeOfData / iluCurImage->Bpp / 8);
-	Heap[0] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-	if (Heap[0] == NULL)
-		return IL_FALSE;
-
-	for (i = 0; i < SizeData; i += Bpp) {
-		*(ILuint*)ColTemp = 0;
-		/*for (c = 0; c < Bpp; c++) {
-			ColTemp[c] = iluCurImage->Data[i + c];
-		}*/
-		ColTemp[0] = iluCurImage->Data[i];
-		if (Bpp > 1) {
-			ColTemp[1] = iluCurImage->Data[i + 1];
-			ColTemp[2] = iluCurImage->Data[i + 2];
-		}
-		if (Bpp > 3)
-			ColTemp[3] = iluCurImage->Data[i + 3];
+	NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
+	Size = iluCurImage->Bpp * iluCurImage->Bpc;
+	Pixels = (const ILubyte**)ialloc(NumPix * sizeof(ILubyte*));
+	if (Pixels == NULL)
+		return 0;
 
-		BucketPos = *(ILuint*)ColTemp % 8192;
+	for (i = 0; i < NumPix; i++)
+		Pixels[i] = iluCurImage->Data + i * (ILsizei)Size;
 
-		// Add to hash table
-		if (Buckets[BucketPos].Next == NULL) {
-			NumCols++;
-			//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-			Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-			if (HeapPtr >= HeapSize) {
-				Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-				if (Heap[HeapPos] == NULL)
-					goto alloc_error;
-				HeapPtr = 0;
-			}
-			*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
-			Buckets[BucketPos].Next->Next = NULL;
-		}
-		else {
-			Matched = IL_FALSE;
-			Temp = Buckets[BucketPos].Next;
-
-			ColVal = *(ILuint*)ColTemp;
-			while (Temp->Next != NULL) {
-				if (ColVal == *(ILuint*)Temp->Colours) {
-					Matched = IL_TRUE;
-					break;
-				}
-				Temp = Temp->Next;
-			}
-			if (!Matched) {
-				if (ColVal != *(ILuint*)Temp->Colours) {  // Check against last entry
-					NumCols++;
-					Temp = Buckets[BucketPos].Next;
-					//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-					Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-					if (HeapPtr >= HeapSize) {
-						Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-						if (Heap[HeapPos] == NULL)
-							goto alloc_error;
-						HeapPtr = 0;
-					}
-					Buckets[BucketPos].Next->Next = Temp;
-					*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
-				}
-			}
+	// The colours of an indexed image are those of the palette entries in use.
+	if (iluCurImage->Format == IL_COLOUR_INDEX && ilIsValidPal(&iluCurImage->Pal)) {
+		ILuint	PalBpp = ilGetBppPal(iluCurImage->Pal.PalType);
+		for (i = 0; i < NumPix; i++) {
+			ILuint	Entry = *Pixels[i] * PalBpp;
+			Pixels[i] = Entry + PalBpp <= iluCurImage->Pal.PalSize ? iluCurImage->Pal.Palette + Entry : Black;
 		}
+		Size = PalBpp;
+		if (iluCurImage->Pal.PalType == IL_PAL_RGB32 || iluCurImage->Pal.PalType == IL_PAL_BGR32)
+			Size = 3;  // The fourth byte is unused.
 	}
 
-	// Delete our mini heap.
-	for (i = 0; i < 9; i++) {
-		if (Heap[i] == NULL)
-			break;
-		ifree(Heap[i]);
+	// Equal colours become neighbours.
+	std::sort(Pixels, Pixels + NumPix, [=](const ILubyte *a, const ILubyte *b) { return memcmp(a, b, Size) < 0; });
+	for (i = 1; i < NumPix; i++) {
+		if (memcmp(Pixels[i - 1], Pixels[i], Size))
+			NumCols++;
 	}
 
+	ifree(Pixels);
 	return NumCols;
-
-alloc_error:
-	for (i = 0; i < 9; i++) {
-		ifree(Heap[i]);
-	}
-
-	return 0;
 }
 
 
 ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 {
 	ILimage		*Original;
-	ILuint		OrigName, i;
+	ILuint		OrigName;
+	ILsizei		i;
 	ILboolean	Same = IL_TRUE;
 
 	iluCurImage = ilGetCurImage();
 	OrigName = ilGetCurName();
 
-	// Same image, so return true.
-	if (ilGetCurName() == Comp)
-		return IL_TRUE;
-
 	if (iluCurImage == NULL || ilIsImage(Comp) == IL_FALSE) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return 0;
 	}
 
 	ilBindImage(Comp);
-    Original = ilGetCurImage();
+	Original = ilGetCurImage();
+
+	// Back to the image that was selected, which may be part of another one
+	ilBindImage(OrigName);
+	ilSetCurImage(iluCurImage);
+
+	// Same image, so return true.
+	if (Original == iluCurImage)
+		return IL_TRUE;
 
-	// @TODO:  Should we check palettes, too?
 	if (Original->Bpp != iluCurImage->Bpp       ||
 		Original->Depth != iluCurImage->Depth   ||
 		Original->Format != iluCurImage->Format ||
@@ -668,7 +436,13 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 		Original->Origin != iluCurImage->Origin ||
 		Original->Type != iluCurImage->Type ||
 		Original->Width != iluCurImage->Width) {
-			ilBindImage(OrigName);
+			return IL_FALSE;
+	}
+
+	if (Original->Format == IL_COLOUR_INDEX) {
+		if (Original->Pal.PalSize != iluCurImage->Pal.PalSize || Original->Pal.PalType != iluCurImage->Pal.PalType)
+			return IL_FALSE;
+		if (Original->Pal.PalSize && memcmp(Original->Pal.Palette, iluCurImage->Pal.Palette, Original->Pal.PalSize))
 			return IL_FALSE;
 	}
 
@@ -679,17 +453,16 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 		}
 	}
 
-	ilBindImage(OrigName);
 	return Same;
 }
 
 
-// @TODO:  FIX ILGETCLEARCALL!
+// Replaces the colours that are as near to the clear colour as Tolerance tells.
 ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue, ILfloat Tolerance)
 {
-	ILubyte	ClearCol[4];
-	ILint	TolVal, Distance, Dist1, Dist2, Dist3;
-	ILuint	i, NumPix;
+	ILubyte		ClearCol[4], ClearLum;
+	ILdouble	New[3] = { (ILdouble)Red, (ILdouble)Green, (ILdouble)Blue }, NewLum;
+	ILint		TolVal;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -698,60 +471,23 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 	}
 
 	ilGetClear(ClearCol, IL_RGBA, IL_UNSIGNED_BYTE);
-	if (Tolerance > 1.0f || Tolerance < -1.0f)
+	ilGetClear(&ClearLum, IL_LUMINANCE, IL_UNSIGNED_BYTE);
+	NewLum = floor(0.212671 * Red + 0.715160 * Green + 0.072169 * Blue + 0.5);
+	if (!(Tolerance <= 1.0f && Tolerance >= -1.0f))
 		Tolerance = 1.0f;  // Clamp it.
-	TolVal = (ILuint)(fabs(Tolerance) * UCHAR_MAX);  // To be changed.
-	NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
+	TolVal = (ILint)(fabs(Tolerance) * UCHAR_MAX);  // To be changed.
 
-	if (Tolerance <= FLT_EPSILON && Tolerance >= 0) {
- 			
-            //@TODO what is this?
-	}
-	else {
-		switch (iluCurImage->Format)
-		{
-			case IL_RGB:
-			case IL_RGBA:
-				for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-					Dist1 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[0];
-					Dist2 = (ILint)iluCurImage->Data[i+1] - (ILint)ClearCol[1];
-					Dist3 = (ILint)iluCurImage->Data[i+2] - (ILint)ClearCol[2];
-					Distance = (ILint)sqrt((float)(Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3));
-					if (Distance >= -TolVal && Distance <= TolVal) {
-						iluCurImage->Data[i] = Red;
-						iluCurImage->Data[i+1] = Green;
-						iluCurImage->Data[i+2] = Blue;
-					}
-				}
-				break;
-			case IL_BGR:
-			case IL_BGRA:
-				for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-					Dist1 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[0];
-					Dist2 = (ILint)iluCurImage->Data[i+1] - (ILint)ClearCol[1];
-					Dist3 = (ILint)iluCurImage->Data[i+2] - (ILint)ClearCol[2];
-					Distance = (ILint)sqrt((float)(Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3));
-					if (Distance >= -TolVal && Distance <= TolVal) {
-						iluCurImage->Data[i+2] = Red;
-						iluCurImage->Data[i+1] = Green;
-						iluCurImage->Data[i] = Blue;
-					}
-				}
-				break;
-			case IL_LUMINANCE:
-			case IL_LUMINANCE_ALPHA:
-				for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-					Dist1 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[0];
-					if (Dist1 >= -TolVal && Dist1 <= TolVal) {
-						iluCurImage->Data[i] = Blue;
-					}
-				}
-				break;
-			//case IL_COLOUR_INDEX:  // @TODO
+	return iluEachColour(iluCurImage, NULL, [&](ILdouble *Colour, ILuint Num, ILdouble Max) {
+		ILdouble	Dist, Sum = 0.0;
+		for (ILuint c = 0; c < Num; c++) {
+			Dist = Colour[c] * 255.0 / Max - (Num == 1 ? ClearLum : ClearCol[c]);
+			Sum += Dist * Dist;
 		}
-	}
-
-	return IL_TRUE;
+		if (TolVal == 0 ? Sum != 0.0 : !(floor(sqrt(Sum)) <= TolVal))
+			return;
+		for (ILuint c = 0; c < Num; c++)
+			Colour[c] = (Num == 1 ? NewLum : New[c]) * Max / 255.0;
+	});
 }
 
 
@@ -760,19 +496,9 @@ ILboolean ILAPIENTRY iluEqualize() {
 	ILuint	Histogram[256]; // image Histogram
 	ILuint	SumHistm[256]; // normalized Histogram and LUT
 	ILuint	i = 0; // index variable
-	ILuint	j = 0; // index variable
-	ILuint	Sum=0;
-	ILuint	NumPixels, Bpp;
-	ILint	Intensity;
-	ILfloat	Scale;
-	ILint	IntensityNew;
+	ILsizei	Sum=0;
+	ILuint	NumPixels;
 	ILimage	*LumImage;
-	ILuint	NewColour[4];
-	ILubyte		*BytePtr;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-
-	NewColour[0] = NewColour[1] = NewColour[2] = NewColour[3] = 0;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -786,14 +512,13 @@ ILboolean ILAPIENTRY iluEqualize() {
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		NumPixels = iluCurImage->Pal.PalSize / ilGetBppPal(iluCurImage->Pal.PalType);
-		Bpp = ilGetBppPal(iluCurImage->Pal.PalType);
-	} else {
-		NumPixels = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
-		Bpp = iluCurImage->Bpp;
+	if (iluCurImage->Format == IL_ALPHA) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
 	}
 
+	NumPixels = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
+
 	// Clear the tables.
 	imemclear(Histogram, 256 * sizeof(ILuint));
 	imemclear(SumHistm,  256 * sizeof(ILuint));
@@ -804,104 +529,29 @@ ILboolean ILAPIENTRY iluEqualize() {
 	for (i = 0; i < NumPixels; i++) {
 		Histogram[LumImage->Data[i]]++;
 	}
+	ilCloseImage(LumImage);
 
 	// Calculate normalized Sum of Histogram.
 	for (i = 0; i < 256; i++) {
-		for (j = 0; j < i; j++)
-			Sum += Histogram[j];
-
-		SumHistm[i] = (Sum << 8) / NumPixels;
-		Sum = 0;
+		SumHistm[i] = (ILuint)((Sum << 8) / NumPixels);
+		Sum += Histogram[i];
 	}
 
-
-	BytePtr = (iluCurImage->Format == IL_COLOUR_INDEX) ? iluCurImage->Pal.Palette : iluCurImage->Data;
-	ShortPtr = (ILushort*)iluCurImage->Data;
-	IntPtr = (ILuint*)iluCurImage->Data;
-
 	// Transform image using new SumHistm as a LUT
-	for (i = 0; i < NumPixels; i++) {
-		Intensity = LumImage->Data[i];
-
-		// Look up the normalized intensity
-		IntensityNew = (ILint)SumHistm[Intensity];
-
-		// Find out by how much the intensity has been Scaled
-		Scale = (ILfloat)IntensityNew / (ILfloat)Intensity;
-
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				// Calculate new pixel(s)
-				NewColour[0] = (ILuint)(BytePtr[i * iluCurImage->Bpp] * Scale);
-				if (Bpp >= 3) {
-					NewColour[1] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 1] * Scale);
-					NewColour[2] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 2] * Scale);
-				}
-
-				// Clamp values
-				if (NewColour[0] > UCHAR_MAX)
-					NewColour[0] = UCHAR_MAX;
-				if (Bpp >= 3) {
-					if (NewColour[1] > UCHAR_MAX)
-						NewColour[1] = UCHAR_MAX;
-					if (NewColour[2] > UCHAR_MAX)
-						NewColour[2] = UCHAR_MAX;
-				}
-
-				// Store pixel(s)
-				BytePtr[i * iluCurImage->Bpp] = (ILubyte)NewColour[0];
-				if (Bpp >= 3) {
-					BytePtr[i * iluCurImage->Bpp + 1]	= (ILubyte)NewColour[1];
-					BytePtr[i * iluCurImage->Bpp + 2]	= (ILubyte)NewColour[2];
-				}
-				break;
-
-			/*case 2:
-				// Calculate new pixel
-				NewColour[0] = (ILuint)(ShortPtr[i * iluCurImage->Bpp] * Scale);
-				NewColour[1] = (ILuint)(ShortPtr[i * iluCurImage->Bpp + 1] * Scale);
-				NewColour[2] = (ILuint)(ShortPtr[i * iluCurImage->Bpp + 2] * Scale);
-
-				// Clamp values
-				if (NewColour[0] > USHRT_MAX)
-					NewColour[0] = USHRT_MAX;
-				if (NewColour[1] > USHRT_MAX)
-					NewColour[1] = USHRT_MAX;
-				if (NewColour[2] > USHRT_MAX)
-					NewColour[2] = USHRT_MAX;
-
-				// Store pixel
-				ShortPtr[i * iluCurImage->Bpp]		= (ILushort)NewColour[0];
-				ShortPtr[i * iluCurImage->Bpp + 1]	= (ILushort)NewColour[1];
-				ShortPtr[i * iluCurImage->Bpp + 2]	= (ILushort)NewColour[2];
-				break;
-
-			case 4:
-				// Calculate new pixel
-				NewColour[0] = (ILuint)(IntPtr[i * iluCurImage->Bpp] * Scale);
-				NewColour[1] = (ILuint)(IntPtr[i * iluCurImage->Bpp + 1] * Scale);
-				NewColour[2] = (ILuint)(IntPtr[i * iluCurImage->Bpp + 2] * Scale);
-
-				// Clamp values
-				if (NewColour[0] > UINT_MAX)
-					NewColour[0] = UINT_MAX;
-				if (NewColour[1] > UINT_MAX)
-					NewColour[1] = UINT_MAX;
-				if (NewColour[2] > UINT_MAX)
-					NewColour[2] = UINT_MAX;
-
-				// Store pixel
-				IntPtr[i * 4 * iluCurImage->Bpp]		= NewColour[0];
-				IntPtr[i * 4 * iluCurImage->Bpp + 1]	= NewColour[1];
-				IntPtr[i * 4 * iluCurImage->Bpp + 2]	= NewColour[2];
-				break;*/
-		}
-	}
-
-	ilCloseImage(LumImage);
-
-	return IL_TRUE;
+	return iluEachColour(iluCurImage, NULL, [&](ILdouble *Colour, ILuint Num, ILdouble) {
+		ILint	Intensity;
+
+		if (Num == 1)
+			Intensity = (ILint)Colour[0];
+		else
+			Intensity = (ILint)(0.212671 * Colour[0] + 0.715160 * Colour[1] + 0.072169 * Colour[2] + 0.5);
+		if (Intensity == 0)
+			return;
+
+		// Look up the normalized intensity and scale the colour accordingly.
+		for (ILuint c = 0; c < Num; c++)
+			Colour[c] = floor(Colour[c] * ((ILfloat)SumHistm[Intensity] / (ILfloat)Intensity));
+	});
 }
 
 
@@ -928,7 +578,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	// Start of the Modified Von Kries hypothesis
 
 	ILdouble ChanAvgs[3] = { 0.0, 0.0, 0.0 };
-	ILuint NumPix = iluCurImage->Width * iluCurImage->Height;
+	ILuint NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
 	if (NumPix < 1) {
 		ilSetError(IL_INTERNAL_ERROR);
 		return IL_FALSE;
@@ -966,7 +616,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 
 	if (ChanAvgsCopy[0] < 1.0 || ChanAvgsCopy[2] < 1.0) {
 		// This prevents division by 0 - could possibly be lowered less than 1
-		//ilSetError(IL_INTERNAL_ERROR);
+		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
@@ -1006,6 +656,8 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	for (ILuint c = 0; c < 3; c++) {
 		if ((MaxVals[c] - MinVals[c]) < 1.0) {
 			// This is the case if an image is a solid color. The original image is unmodified.
+			ifree(Corrected);
+			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 		}
 	}
diff --git a/DevIL/src-ILU/src/ilu_noise.cpp b/DevIL/src-ILU/src/ilu_noise.cpp
index 90375b2..9e3be65 100644
--- a/DevIL/src-ILU/src/ilu_noise.cpp
+++ b/DevIL/src-ILU/src/ilu_noise.cpp
@@ -12,6 +12,7 @@
 
 
 #include "ilu_internal.h"
+#include "ilu_samples.h"
 #include <math.h>
 //#include <time.h>
 #include <limits.h>
@@ -21,11 +22,10 @@
 //	This will probably use Perlin noise and parameters in the future.
 ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 {
-	ILuint		i, j, c, Factor, Factor2, NumPix;
-	ILint		Val;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
+	ILdouble	Factor;
+	ILimage		*Image;
 	ILubyte		*RegionMask;
+	ILboolean	Result;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -33,87 +33,50 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		return IL_FALSE;
 	}
 
-	RegionMask = iScanFill();
+	if (!(Tolerance > 0.0f))
+		return IL_TRUE;
+	if (Tolerance > 1.0f)
+		Tolerance = 1.0f;
 
-	// @TODO:  Change this to work correctly without time()!
-	//srand(time(NULL));
-	NumPix = iluCurImage->SizeOfData / iluCurImage->Bpc;
-
-	switch (iluCurImage->Bpc)
-	{
-		case 1:
-			Factor = (ILubyte)(Tolerance * (UCHAR_MAX / 2));
-			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
-			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
-				if (RegionMask) {
-					if (!RegionMask[j])
-						continue;
-				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if ((ILint)iluCurImage->Data[i + c] + Val > UCHAR_MAX)
-						iluCurImage->Data[i + c] = UCHAR_MAX;
-					else if ((ILint)iluCurImage->Data[i + c] + Val < 0)
-						iluCurImage->Data[i + c] = 0;
-					else
-						iluCurImage->Data[i + c] += Val;
-				}
-			}
-			break;
-		case 2:
-			Factor = (ILushort)(Tolerance * (USHRT_MAX / 2));
-			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
-			ShortPtr = (ILushort*)iluCurImage->Data;
-			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
-				if (RegionMask) {
-					if (!RegionMask[j])
-						continue;
-				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if ((ILint)ShortPtr[i + c] + Val > USHRT_MAX)
-						ShortPtr[i + c] = USHRT_MAX;
-					else if ((ILint)ShortPtr[i + c] + Val < 0)
-						ShortPtr[i + c] = 0;
-					else
-						ShortPtr[i + c] += Val;
-				}
-			}
-			break;
-		case 4:
-			Factor = (ILuint)(Tolerance * (UINT_MAX / 2));
-			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
-			IntPtr = (ILuint*)iluCurImage->Data;
-			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
-				if (RegionMask) {
-					if (!RegionMask[j])
-						continue;
-				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if (IntPtr[i + c] + Val > UINT_MAX)
-						IntPtr[i + c] = UINT_MAX;
-					else if ((ILint)IntPtr[i + c] + Val < 0)
-						IntPtr[i + c] = 0;
-					else
-						IntPtr[i + c] += Val;
-				}
-			}
-			break;
+	if (!iScanFill(&RegionMask))
+		return IL_FALSE;
+
+	// Indices cannot be changed one by one.
+	Image = iluCurImage;
+	if (Image->Format == IL_COLOUR_INDEX)
+		Image = iConvertImage(Image, ilIsValidPal(&Image->Pal) ? ilGetPalBaseType(Image->Pal.PalType) : IL_RGB, IL_UNSIGNED_BYTE);
+	if (Image == NULL) {
+		ifree(RegionMask);
+		return IL_FALSE;
 	}
 
+	// @TODO:  Change this to work correctly without time()!
+	//srand(time(NULL));
+	Factor = floor(Tolerance * (iluTypeMax(Image->Type) / 2));
+	if (iluTypeMax(Image->Type) == 1.0)
+		Factor = Tolerance / 2;
+
+	Result = iluEachColour(Image, RegionMask, [=](ILdouble *Colour, ILuint Num, ILdouble) {
+		ILdouble Val = Factor * (2.0 * rand() / ((ILdouble)RAND_MAX + 1.0) - 1.0);
+		for (ILuint c = 0; c < Num; c++)
+			Colour[c] += Val;
+	});
 	ifree(RegionMask);
 
-	return IL_TRUE;
-}
+	if (Image != iluCurImage) {
+		ILimage	*Indexed = Result ? iluIndexedImage(Image, &iluCurImage->Pal) : NULL;
+		ilCloseImage(Image);
+		if (Indexed == NULL)
+			return IL_FALSE;
 
+		Image = iluCurImage->Mipmaps;
+		iluCurImage->Mipmaps = NULL;
+		iluReplaceImageData(iluCurImage, Indexed);
+		iluCurImage->Mipmaps = Image;
+	}
 
+	return Result;
+}
 
 
 // Information on Perlin Noise taken from
diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 4824c14..ccbb71b 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -24,6 +24,7 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 	if (Points == NULL || n == 0) {
 		ifree(RegionPointsi);
 		ifree(RegionPointsf);
+		RegionPointsi = NULL;
 		RegionPointsf = NULL;
 		PointNum = 0;
 		return;
@@ -32,12 +33,14 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 		ilSetError(ILU_INVALID_PARAM);
 		return;
 	}
+	ILpointf *Region = (ILpointf*)ialloc(sizeof(ILpointf) * (ILsizei)n);
+	if (Region == NULL)
+		return;
+	memcpy(Region, Points, sizeof(ILpointf) * (ILsizei)n);
 	ifree(RegionPointsi);
 	ifree(RegionPointsf);
-	RegionPointsf = (ILpointf*)ialloc(sizeof(ILpointf) * n);
-	if (RegionPointsf == NULL)
-		return;
-	memcpy(RegionPointsf, Points, sizeof(ILpointi) * n);
+	RegionPointsi = NULL;
+	RegionPointsf = Region;
 	PointNum = n;
 	return;
 }
@@ -49,6 +52,7 @@ void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 		ifree(RegionPointsi);
 		ifree(RegionPointsf);
 		RegionPointsi = NULL;
+		RegionPointsf = NULL;
 		PointNum = 0;
 		return;
 	}
@@ -56,12 +60,14 @@ void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 		ilSetError(ILU_INVALID_PARAM);
 		return;
 	}
+	ILpointi *Region = (ILpointi*)ialloc(sizeof(ILpointi) * (ILsizei)n);
+	if (Region == NULL)
+		return;
+	memcpy(Region, Points, sizeof(ILpointi) * (ILsizei)n);
 	ifree(RegionPointsi);
 	ifree(RegionPointsf);
-	RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * n);
-	if (RegionPointsi == NULL)
-		return;
-	memcpy(RegionPointsi, Points, sizeof(ILpointi) * n);
+	RegionPointsf = NULL;
+	RegionPointsi = Region;
 	PointNum = n;
 	return;
 }
@@ -97,7 +103,7 @@ ILint yNext(ILint k, ILint cnt, ILpointi *pts)
 	else
 		j = k + 1;
 
-	while (pts[k].y == pts[j].y) {
+	while (pts[k].y == pts[j].y && j != k) {
 		if ((j+1) > (cnt-1))
 			j = 0;
 		else
@@ -124,7 +130,7 @@ void MakeEdgeRec(ILpointi lower, ILpointi upper, ILint yComp, Edge *edge, Edge *
 }
 
 
-void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
+ILboolean BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 {
 	Edge *edge;
 	ILpointi v1, v2;
@@ -138,6 +144,8 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 		v2 = pts[i];
 		if (v1.y != v2.y) {			// nonhorizontal line
 			edge = (Edge*)ialloc(sizeof(Edge));
+			if (edge == NULL)
+				return IL_FALSE;
 			if (v1.y < v2.y) {		// up-going edge
 				MakeEdgeRec(v1, v2, yNext(i, cnt, pts), edge, edges);
 			}
@@ -148,6 +156,8 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 		yPrev = v1.y;
 		v1 = v2;
 	}
+
+	return IL_TRUE;
 }
 
 
@@ -161,10 +171,11 @@ void BuildActiveList(ILint scan, Edge *active, Edge *edges[])
 		InsertEdge(active, p);
 		p = q;
 	}
+	edges[scan]->next = NULL;
 }
 
 
-#define iRegionSetPixel(x,y) (iRegionMask[y * iluCurImage->Width + x] = 1 )
+#define iRegionSetPixel(x,y) (iRegionMask[(y) * (ILsizei)iluCurImage->Width + (x)] = 1 )
 
 
 void FillScan(ILint scan, Edge *active)
@@ -173,9 +184,9 @@ void FillScan(ILint scan, Edge *active)
 	ILint i;
 
 	p1 = active->next;
-	while (p1) {
+	while (p1 && p1->next) {
 		p2 = p1->next;
-		for (i = (ILuint)p1->xIntersect; i < p2->xIntersect; i++) {
+		for (i = (ILint)p1->xIntersect; i < p2->xIntersect; i++) {
 			iRegionSetPixel((ILuint)i, scan);
 		}
 		p1 = p2->next;
@@ -187,7 +198,7 @@ void DeleteAfter(Edge *q)
 {
 	Edge *p = q->next;
 	q->next = p->next;
-	free(p);
+	ifree(p);
 }
 
 
@@ -223,44 +234,71 @@ void ResortActiveList(Edge *active)
 }
 
 
-ILubyte *iScanFill()
+static void iFreeEdges(Edge *list)
 {
-	Edge	**edges = NULL, *active = NULL/*, *temp*/;
-	ILuint	i, scan;
+	Edge *next;
 
+	while (list) {
+		next = list->next;
+		ifree(list);
+		list = next;
+	}
+	return;
+}
+
+
+//! Gets the mask of the region, with one byte for each pixel of a plane.  It is NULL if there is no region or if the
+//  region does not lie within the image.  Only fails when out of memory.
+ILboolean iScanFill(ILubyte **Mask)
+{
+	Edge		**edges = NULL, *active = NULL;
+	ILuint		i, scan;
+	ILpointi	*Points;
+	ILboolean	Result = IL_FALSE;
+
+	*Mask = NULL;
 	iRegionMask = NULL;
 
 	if ((RegionPointsi == NULL && RegionPointsf == NULL) || PointNum == 0)
-		return NULL;
+		return IL_TRUE;
 
-	if (RegionPointsf) {
-		RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * PointNum);
-		if (RegionPointsi == NULL)
-			goto error;
-	}
+	Points = (ILpointi*)ialloc(sizeof(ILpointi) * (ILsizei)PointNum);
+	if (Points == NULL)
+		return IL_FALSE;
 
 	for (i = 0; i < PointNum; i++) {
 		if (RegionPointsf) {
-			RegionPointsi[i].x = (ILuint)(iluCurImage->Width * RegionPointsf[i].x);
-			RegionPointsi[i].y = (ILuint)(iluCurImage->Height * RegionPointsf[i].y);
+			// Also sorts out what is not a number.
+			if (!(RegionPointsf[i].x >= 0.0f && RegionPointsf[i].x < 1.0f && RegionPointsf[i].y >= 0.0f && RegionPointsf[i].y < 1.0f)) {
+				ifree(Points);
+				return IL_TRUE;
+			}
+			Points[i].x = (ILuint)(iluCurImage->Width * RegionPointsf[i].x);
+			Points[i].y = (ILuint)(iluCurImage->Height * RegionPointsf[i].y);
+		}
+		else {
+			Points[i] = RegionPointsi[i];
+		}
+		if (Points[i].x < 0 || Points[i].x >= (ILint)iluCurImage->Width ||
+			Points[i].y < 0 || Points[i].y >= (ILint)iluCurImage->Height) {
+			ifree(Points);
+			return IL_TRUE;
 		}
-		if (RegionPointsi[i].x >= (ILint)iluCurImage->Width || RegionPointsi[i].y >= (ILint)iluCurImage->Height)
-			goto error;
 	}
 
-	edges = (Edge**)ialloc(sizeof(Edge*) * iluCurImage->Height);
-	iRegionMask = (ILubyte*)ialloc(iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
-	if (edges == NULL || iRegionMask == NULL)
-		goto error;
-	imemclear(iRegionMask, iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
+	edges = (Edge**)icalloc(sizeof(Edge*), iluCurImage->Height);
+	iRegionMask = (ILubyte*)icalloc(iluCurImage->Width, iluCurImage->Height);
+	active = (Edge*)icalloc(1, sizeof(Edge));
+	if (edges == NULL || iRegionMask == NULL || active == NULL)
+		goto end;
 
 	for (i = 0; i < iluCurImage->Height; i++) {
-		edges[i] = (Edge*)ialloc(sizeof(Edge));
-		edges[i]->next = NULL;
+		edges[i] = (Edge*)icalloc(1, sizeof(Edge));
+		if (edges[i] == NULL)
+			goto end;
 	}
-	BuildEdgeList(PointNum, RegionPointsi, edges);
-	active = (Edge*)ialloc(sizeof(Edge));
-	active->next = NULL;
+	if (!BuildEdgeList(PointNum, Points, edges))
+		goto end;
 
 	for (scan = 0; scan < iluCurImage->Height; scan++) {
 		BuildActiveList(scan, active, edges);
@@ -270,35 +308,22 @@ ILubyte *iScanFill()
 			ResortActiveList(active);
 		}
 	}
+	Result = IL_TRUE;
 
+end:
 	// Free edge records that have been allocated.
-	/*for (i = 0; i < iluCurImage->Height; i++) {
-		while (edges[i]) {
-			temp = edges[i]->next;
-			ifree(edges[i]);
-			edges[i] = temp;
-		}
-	}*/
-
-	ifree(edges);
-
-	if (RegionPointsf) {
-		ifree(RegionPointsi);
-		RegionPointsi = NULL;
+	if (edges) {
+		for (i = 0; i < iluCurImage->Height; i++)
+			iFreeEdges(edges[i]);
 	}
-
-	return iRegionMask;
-
-error:
-	if (RegionPointsf) {
-		ifree(RegionPointsi);
-		RegionPointsi = NULL;
-	}
-
-	// Free edge records that have been allocated.
-
 	ifree(edges);
-	ifree(iRegionMask);
-	return NULL;
-}
+	iFreeEdges(active);
+	ifree(Points);
+	if (!Result)
+		ifree(iRegionMask);
+	else
+		*Mask = iRegionMask;
+	iRegionMask = NULL;
 
+	return Result;
+}
diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index c688622..846eb3c 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -17,8 +17,7 @@
 
 ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 {
-	ILimage	*Temp, *Temp1, *CurImage = NULL;
-	ILenum	PalType = 0;
+	ILimage	*Temp;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -26,39 +25,12 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		PalType = iluCurImage->Pal.PalType;
-		CurImage = iluCurImage;
-		iluCurImage = iConvertImage(iluCurImage, ilGetPalBaseType(CurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-
 	Temp = iluRotate_(iluCurImage, Angle);
-	if (Temp != NULL) {
-		if (PalType != 0) {
-			ilCloseImage(iluCurImage);
-			Temp1 = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-			ilCloseImage(Temp);
-			Temp = Temp1;
-			ilSetCurImage(CurImage);
-		}
-		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
-		if (PalType != 0) {
-			iluCurImage = ilGetCurImage();
-			iluCurImage->Pal.PalSize = Temp->Pal.PalSize;
-			iluCurImage->Pal.PalType = Temp->Pal.PalType;
-			iluCurImage->Pal.Palette = (ILubyte*)ialloc(Temp->Pal.PalSize);
-			if (iluCurImage->Pal.Palette == NULL) {
-				ilCloseImage(Temp);
-				return IL_FALSE;
-			}
-			memcpy(iluCurImage->Pal.Palette, Temp->Pal.Palette, Temp->Pal.PalSize);
-		}
+	if (Temp == NULL)
+		return IL_FALSE;
 
-		iluCurImage->Origin = Temp->Origin;
-		ilCloseImage(Temp);
-		return IL_TRUE;
-	}
-	return IL_FALSE;
+	iluReplaceImageData(iluCurImage, Temp);
+	return IL_TRUE;
 }
 
 
@@ -71,10 +43,7 @@ ILboolean ILAPIENTRY iluRotate3D(ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 	iluCurImage = ilGetCurImage();
 	Temp = iluRotate3D_(iluCurImage, x, y, z, Angle);
 	if (Temp != NULL) {
-		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
-		iluCurImage->Origin = Temp->Origin;
-		ilSetPal(&Temp->Pal);
-		ilCloseImage(Temp);
+		iluReplaceImageData(iluCurImage, Temp);
 		return IL_TRUE;
 	}
 	return IL_FALSE;
@@ -86,276 +55,102 @@ ILboolean ILAPIENTRY iluRotate3D(ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 {
 	ILimage		*Rotated = NULL;
-	ILint		x, y, c;
+	ILuint		x, y, z, Width, Height;
+	ILsizei		PixSize;
 	ILdouble	Cos, Sin;
-	ILuint		RotOffset, ImgOffset;
-	ILint		MinX, MinY, MaxX, MaxY;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILdouble	*DblPtr;
+	ILdouble	MinX, MinY, MaxX, MaxY, SrcX, SrcY;
 	ILdouble	Point1x, Point1y, Point2x, Point2y, Point3x, Point3y;
-	ILint		SrcX, SrcY;
+
+	if (Image == NULL || Angle - Angle != 0) {  // Not a finite number
+		ilSetError(ILU_INVALID_PARAM);
+		return NULL;
+	}
 
 	// Multiples of 90 are special.
 	Angle = (ILfloat)fmod((ILdouble)Angle, 360.0);
 	if (Angle < 0)
 		Angle = 360.0f + Angle;
+	if (Angle == 360.0f)
+		Angle = 0.0f;
 
 	Cos = (ILdouble)cos((IL_PI * Angle) / 180.0);
 	Sin = (ILdouble)sin((IL_PI * Angle) / 180.0);
+	MinX = MinY = 0;
 
-	Point1x = (-(ILint)Image->Height * Sin);
-	Point1y = (Image->Height * Cos);
-	Point2x = (Image->Width * Cos - Image->Height * Sin);
-	Point2y = (Image->Height * Cos + Image->Width * Sin);
-	Point3x = (Image->Width * Cos);
-	Point3y = (Image->Width * Sin);
-
-	MinX = (ILint)IL_MIN(0, IL_MIN(Point1x, IL_MIN(Point2x, Point3x)));
-	MinY = (ILint)IL_MIN(0, IL_MIN(Point1y, IL_MIN(Point2y, Point3y)));
-	MaxX = (ILint)IL_MAX(Point1x, IL_MAX(Point2x, Point3x));
-	MaxY = (ILint)IL_MAX(Point1y, IL_MAX(Point2y, Point3y));
+	if (Angle == 0.0 || Angle == 180.0) {
+		Width = Image->Width;
+		Height = Image->Height;
+	}
+	else if (Angle == 90.0 || Angle == 270.0) {
+		Width = Image->Height;
+		Height = Image->Width;
+	}
+	else {
+		Point1x = -(Image->Height * Sin);
+		Point1y = (Image->Height * Cos);
+		Point2x = (Image->Width * Cos - Image->Height * Sin);
+		Point2y = (Image->Height * Cos + Image->Width * Sin);
+		Point3x = (Image->Width * Cos);
+		Point3y = (Image->Width * Sin);
+
+		MinX = floor(IL_MIN(0, IL_MIN(Point1x, IL_MIN(Point2x, Point3x))));
+		MinY = floor(IL_MIN(0, IL_MIN(Point1y, IL_MIN(Point2y, Point3y))));
+		MaxX = ceil(IL_MAX(0, IL_MAX(Point1x, IL_MAX(Point2x, Point3x))));
+		MaxY = ceil(IL_MAX(0, IL_MAX(Point1y, IL_MAX(Point2y, Point3y))));
+
+		if (MaxX - MinX > 0x7FFFFFFF || MaxY - MinY > 0x7FFFFFFF) {
+			ilSetError(ILU_INVALID_PARAM);
+			return NULL;
+		}
+		Width = (ILuint)(MaxX - MinX);
+		Height = (ILuint)(MaxY - MinY);
+	}
 
-	Rotated = (ILimage*)icalloc(1, sizeof(ILimage));
+	Rotated = iluNewSized(Image, Width, Height, Image->Depth);
 	if (Rotated == NULL)
 		return NULL;
-	if (ilCopyImageAttr(Rotated, Image) == IL_FALSE) {
-		ilCloseImage(Rotated);
-		return NULL;
-	}
-
-	if (ilResizeImage(Rotated, (ILuint)ceil(fabs(MaxX) - MinX), (ILuint)ceil(fabs(MaxY) - MinY), 1, Image->Bpp, Image->Bpc) == IL_FALSE) {
-		ilCloseImage(Rotated);
-		return IL_FALSE;
-	}
 
-	ilClearImage_(Rotated);
+	PixSize = (ILsizei)Image->Bpp * Image->Bpc;
 
-	ShortPtr = (ILushort*)iluCurImage->Data;
-	IntPtr = (ILuint*)iluCurImage->Data;
-	DblPtr = (ILdouble*)iluCurImage->Data;
+	if (Angle != 0.0 && Angle != 90.0 && Angle != 180.0 && Angle != 270.0) {
+		if (!iluClearBackground(Rotated)) {
+			ilCloseImage(Rotated);
+			return NULL;
+		}
+	}
 
 	//if (iluFilter == ILU_NEAREST) {
-	switch (iluCurImage->Bpc)
-	{
-		case 1:  // Byte-based (most images)
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
+	for (y = 0; y < Height; y++) {
+		for (x = 0; x < Width; x++) {
+			if (Angle == 0.0) {
+				SrcX = x;
+				SrcY = y;
 			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-							}
-						}
-					}
-				}
-			}
-			break;
-
-		case 2:  // Short-based
-			Image->Bps /= 2;   // Makes it easier to just
-			Rotated->Bps /= 2; //   cast to short.
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
+			else if (Angle == 90.0) {
+				SrcX = y;
+				SrcY = Image->Height - 1.0 - x;
 			}
 			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
+				SrcX = Image->Width - 1.0 - x;
+				SrcY = Image->Height - 1.0 - y;
 			}
 			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
+				SrcX = Image->Width - 1.0 - y;
+				SrcY = x;
 			}
 			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-							}
-						}
-					}
-				}
+				SrcX = floor((x + MinX) * Cos + (y + MinY) * Sin);
+				SrcY = floor((y + MinY) * Cos - (x + MinX) * Sin);
+				if (SrcX < 0 || SrcX >= Image->Width || SrcY < 0 || SrcY >= Image->Height)
+					continue;
 			}
-			Image->Bps *= 2;
-			Rotated->Bps *= 2;
-			break;
-
-		case 4:  // Floats or 32-bit integers
-			Image->Bps /= 4;
-			Rotated->Bps /= 4;
 
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
+			for (z = 0; z < Image->Depth; z++) {
+				memcpy(Rotated->Data + z * (ILsizei)Rotated->SizeOfPlane + y * (ILsizei)Rotated->Bps + x * PixSize,
+					Image->Data + z * (ILsizei)Image->SizeOfPlane + (ILsizei)SrcY * Image->Bps + (ILsizei)SrcX * PixSize,
+					PixSize);
 			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-							}
-						}
-					}
-				}
-			}
-			Image->Bps *= 4;
-			Rotated->Bps *= 4;
-			break;
-
-		case 8:  // Double or 64-bit integers
-			Image->Bps /= 8;
-			Rotated->Bps /= 8;
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) { 
-					for (y = 0; y < (ILint)Image->Height; y++) { 
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-							}
-						}
-					}
-				}
-			}
-			Image->Bps *= 8;
-			Rotated->Bps *= 8;
-			break;
+		}
 	}
 
 	return Rotated;
@@ -365,5 +160,6 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 ILAPI ILimage* ILAPIENTRY iluRotate3D_(ILimage *Image, ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 {
 	Image; x; y; z; Angle;
+	ilSetError(ILU_ILLEGAL_OPERATION);  // Not implemented
 	return NULL;
 }
diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index 7f2da59..9153e76 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -47,7 +47,6 @@ ILboolean ILAPIENTRY iluEnlargeImage(ILfloat XDim, ILfloat YDim, ILfloat ZDim)
 ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 {
 	ILimage	*Temp, *Indexed;
-	ILpal	*Pal;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -105,20 +104,10 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 
 	// Back to as many colours as a palette holds
 	if (Temp->Format != iluCurImage->Format && iluCurImage->Format == IL_COLOUR_INDEX) {
-		Indexed = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+		Indexed = iluIndexedImage(Temp, &iluCurImage->Pal);
 		ilCloseImage(Temp);
 		if (Indexed == NULL)
 			return IL_FALSE;
-		if (Indexed->Pal.PalType != iluCurImage->Pal.PalType) {
-			Pal = iConvertPal(&Indexed->Pal, iluCurImage->Pal.PalType);
-			if (Pal == NULL) {
-				ilCloseImage(Indexed);
-				return IL_FALSE;
-			}
-			ifree(Indexed->Pal.Palette);
-			Indexed->Pal = *Pal;
-			ifree(Pal);
-		}
 		Temp = Indexed;
 	}
 
-- 
2.43.0


From f01b0c7fc927a64304a68a3c6764adc6b5f5e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 079/161] fix: filtering or scaling an indexed image with
 filters makes a palette with alpha opaque

---
 DevIL/src-ILU/src/ilu_internal.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/DevIL/src-ILU/src/ilu_internal.cpp b/DevIL/src-ILU/src/ilu_internal.cpp
index d23a056..83b89f0 100644
--- a/DevIL/src-ILU/src/ilu_internal.cpp
+++ b/DevIL/src-ILU/src/ilu_internal.cpp
@@ -26,6 +26,7 @@ ILimage *iluIndexedImage(ILimage *Image, ILpal *Pal)
 {
 	ILimage	*Indexed = iConvertImage(Image, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 	ILpal	*New;
+	ILsizei	i, NumPix, Sum[256] = { 0 }, Count[256] = { 0 };
 
 	if (Indexed == NULL)
 		return NULL;
@@ -39,6 +40,21 @@ ILimage *iluIndexedImage(ILimage *Image, ILpal *Pal)
 		Indexed->Pal = *New;
 		ifree(New);
 	}
+
+	// Colours are only told apart by their red, green and blue parts so far, so each of them gets the mean alpha
+	//  of its pixels.
+	if ((Indexed->Pal.PalType == IL_PAL_RGBA32 || Indexed->Pal.PalType == IL_PAL_BGRA32) &&
+		(Image->Format == IL_RGBA || Image->Format == IL_BGRA) && Image->Type == IL_UNSIGNED_BYTE) {
+		NumPix = (ILsizei)Image->Width * Image->Height * Image->Depth;
+		for (i = 0; i < NumPix; i++) {
+			Sum[Indexed->Data[i]] += Image->Data[i * 4 + 3];
+			Count[Indexed->Data[i]]++;
+		}
+		for (i = 0; i < 256 && i < Indexed->Pal.PalSize / 4; i++) {
+			if (Count[i] != 0)
+				Indexed->Pal.Palette[i * 4 + 3] = (ILubyte)((Sum[i] + Count[i] / 2) / Count[i]);
+		}
+	}
 	return Indexed;
 }
 
-- 
2.43.0


From 20444fed1bc9d577c123cd8f77c1b0847f92ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 080/161] fix: rounding makes regions spill over their left and
 right ends

---
 DevIL/src-ILU/src/ilu_region.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index ccbb71b..61ea074 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -186,7 +186,8 @@ void FillScan(ILint scan, Edge *active)
 	p1 = active->next;
 	while (p1 && p1->next) {
 		p2 = p1->next;
-		for (i = (ILint)p1->xIntersect; i < p2->xIntersect; i++) {
+		// The intersections are sums, which may miss a whole number by a bit.
+		for (i = (ILint)(p1->xIntersect + 0.001f); i < p2->xIntersect - 0.001f; i++) {
 			iRegionSetPixel((ILuint)i, scan);
 		}
 		p1 = p2->next;
-- 
2.43.0


From d64e2ab4e69f9105596d17f7034c965ed85622d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 081/161] fix: saving to a lump leaves bytes it seeks over
 unwritten

---
 DevIL/src-IL/src/il_files.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 7f3d76b..27929b1 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -715,12 +715,23 @@ ILint ILAPIENTRY iPutcFile(ILubyte Char)
 }
 
 
+// Bytes that were seeked over become zero, like in a file.
+static void iFillLumpGap()
+{
+	if (WriteLumpPos > WriteLumpEnd) {
+		memset((ILubyte*)WriteLump + WriteLumpEnd, 0, WriteLumpPos - WriteLumpEnd);
+		WriteLumpEnd = WriteLumpPos;
+	}
+}
+
+
 ILint ILAPIENTRY iPutcLump(ILubyte Char)
 {
 	if (WriteLumpPos >= WriteLumpSize) {
 		iNoteWriteError();
 		return IL_EOF;  // IL_EOF
 	}
+	iFillLumpGap();
 	*((ILubyte*)(WriteLump) + WriteLumpPos++) = Char;
 	if (WriteLumpPos > WriteLumpEnd)
 		WriteLumpEnd = WriteLumpPos;
@@ -747,6 +758,7 @@ ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 	if (Size == 0 || Number == 0)
 		return Number;
 
+	iFillLumpGap();
 	if (Number > Left / Size) {
 		memcpy((ILubyte*)WriteLump + WriteLumpPos, Buffer, Left);
 		WriteLumpPos = WriteLumpSize;
-- 
2.43.0


From ee9915b12ebca06e6802814d8ec5629fcfff3c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 082/161] fix: ilSaveF cuts the number of bytes written to
 eight bits

---
 DevIL/src-IL/src/il_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 58f0489..0a32855 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2433,7 +2433,7 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 
 static ILuint iSaveTypeF(ILenum Type, ILHANDLE File)
 {
-	ILboolean Ret;
+	ILuint Ret;
 
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
-- 
2.43.0


From d2d70e2d4409fa1b9e9d1373639b57e5a496f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 083/161] fix: IL_PALETTE_SIZE cannot be queried

---
 DevIL/src-IL/src/il_states.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 2ea093c..e8da99c 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -709,6 +709,9 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
         case IL_PALETTE_TYPE:
              *Param = Image->Pal.PalType;
              break;
+        case IL_PALETTE_SIZE:
+             *Param = Image->Pal.Palette ? Image->Pal.PalSize : 0;
+             break;
         case IL_PALETTE_BPP:
              *Param = ilGetBppPal(Image->Pal.PalType);
              break;
-- 
2.43.0


From 65415d0807178ce4a1953e1334ae228706dd133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 084/161] fix: palette files leave a broken or inconsistent
 palette on errors, ilApplyPal never works

---
 DevIL/src-IL/src/il_pal.cpp | 507 ++++++++++++------------------------
 1 file changed, 169 insertions(+), 338 deletions(-)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index 060717f..1ba4eba 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -64,14 +64,45 @@ ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 }
 
 
+// Makes Palette (of Size bytes, RGB24) the palette of the current image, which owns it from now on.
+static void iReplacePal(ILubyte *Palette, ILuint Size)
+{
+	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE)
+		ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = Palette;
+	iCurImage->Pal.PalSize = Size;
+	iCurImage->Pal.PalType = IL_PAL_RGB24;
+	return;
+}
+
+
+// Reads a palette of Size bytes from where the input is.  The palette of the current image
+//  is only replaced if this succeeds.
+static ILboolean iReadPal(ILuint Size)
+{
+	ILubyte *Palette = (ILubyte*)ialloc(Size);
+	if (Palette == NULL)
+		return IL_FALSE;
+
+	if (iread(Palette, 1, Size) != Size) {
+		ifree(Palette);
+		return IL_FALSE;
+	}
+
+	iReplacePal(Palette, Size);
+	return IL_TRUE;
+}
+
+
 //! Loads a Paint Shop Pro formatted palette (.pal) file.
 ILboolean ilLoadJascPal(ILconst_string FileName)
 {
 	FILE *PalFile;
-	ILuint NumColours, i, c;
+	ILint NumColours;
+	ILuint i;
 	ILubyte Buff[BUFFLEN];
 	ILboolean Error = IL_FALSE;
-	ILpal *Pal = &iCurImage->Pal;
+	ILubyte *Palette;
 
 	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -93,11 +124,6 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
 	iFgetw(Buff, BUFFLEN, PalFile);
 	if (stricmp((const char*)Buff, "JASC-PAL")) {
 		Error = IL_TRUE;
@@ -109,28 +135,31 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 
 	iFgetw(Buff, BUFFLEN, PalFile);
 	NumColours = atoi((const char*)Buff);
-	if (NumColours == 0 || Error) {
+	if (NumColours <= 0 || NumColours > 256 || Error) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		fclose(PalFile);
 		return IL_FALSE;
 	}
 	
-	Pal->PalSize = NumColours * PALBPP;
-	Pal->PalType = IL_PAL_RGB24;
-	Pal->Palette = (ILubyte*)ialloc(NumColours * PALBPP);
-	if (Pal->Palette == NULL) {
+	Palette = (ILubyte*)ialloc(NumColours * PALBPP);
+	if (Palette == NULL) {
 		fclose(PalFile);
 		return IL_FALSE;
 	}
 
-	for (i = 0; i < NumColours; i++) {
-		for (c = 0; c < PALBPP; c++) {
-			iFgetw(Buff, BUFFLEN, PalFile);
-			Pal->Palette[i * PALBPP + c] = atoi((const char*)Buff);
+	for (i = 0; i < (ILuint)NumColours * PALBPP; i++) {
+		iFgetw(Buff, BUFFLEN, PalFile);
+		if (Buff[0] == '\0') {  // The file ends here.
+			ilSetError(IL_FILE_READ_ERROR);
+			ifree(Palette);
+			fclose(PalFile);
+			return IL_FALSE;
 		}
+		Palette[i] = (ILubyte)atoi((const char*)Buff);
 	}
 
 	fclose(PalFile);
+	iReplacePal(Palette, NumColours * PALBPP);
 
 	return IL_TRUE;
 }
@@ -141,36 +170,22 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 char *iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File)
 {
 	ILint Temp;
-	ILint i;
+	ILint i = 0;
 
 	if (Buff == NULL || File == NULL || MaxLen < 2) {
 		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
 
-	for (i = 0; i < MaxLen - 1; i++) {
+	// Words are separated by spaces, line ends and anything else that does not print.
+	do {
 		Temp = fgetc(File);
-		if (Temp == '\n' || Temp == '\0' || Temp == IL_EOF || feof(File)) {
-			break;			
-		}
-
-		if (Temp == ' ') {
-			while (Temp == ' ') {  // Just to get rid of any extra spaces
-				Temp = fgetc(File);
-			}
-			fseek(File, -1, IL_SEEK_CUR);  // Go back one
-			break;
-		}
-
-		if (!isprint(Temp)) {  // Skips any non-printing characters
-			while (!isprint(Temp)) {
-				Temp = fgetc(File);
-			}
-			fseek(File, -1, IL_SEEK_CUR);
-			break;
-		}
+	} while (Temp != IL_EOF && (Temp == ' ' || !isprint(Temp)));
 
-		Buff[i] = Temp;
+	while (Temp != IL_EOF && Temp != ' ' && isprint(Temp)) {
+		if (i < MaxLen - 1)
+			Buff[i++] = Temp;
+		Temp = fgetc(File);
 	}
 
 	Buff[i] = '\0';
@@ -180,7 +195,7 @@ char *iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File)
 
 ILboolean ILAPIENTRY ilSavePal(ILconst_string FileName)
 {
-	ILstring Ext = iGetExtension(FileName);
+	ILstring Ext = FileName == NULL ? NULL : iGetExtension(FileName);
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -214,8 +229,9 @@ ILboolean ILAPIENTRY ilSavePal(ILconst_string FileName)
 ILboolean ilSaveJascPal(ILconst_string FileName)
 {
 	FILE	*PalFile;
-	ILuint	i, PalBpp, NumCols = ilGetInteger(IL_PALETTE_NUM_COLS);
-	ILubyte	*CurPal;
+	ILuint	i, NumCols = ilGetInteger(IL_PALETTE_NUM_COLS);
+	ILpal	*Pal;
+	ILboolean	Failed;
 
 	if (iCurImage == NULL || NumCols == 0 || NumCols > 256) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -243,20 +259,10 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 		}
 	}
 
-	// Create a copy of the current palette and convert it to RGB24 format.
-	CurPal = iCurImage->Pal.Palette;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
-		iCurImage->Pal.Palette = CurPal;
-		return IL_FALSE;
-	}
-
-	memcpy(iCurImage->Pal.Palette, CurPal, iCurImage->Pal.PalSize);
-	if (!ilConvertPal(IL_PAL_RGB24)) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = CurPal;
+	// Convert a copy of the current palette to RGB24 format.
+	Pal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+	if (Pal == NULL)
 		return IL_FALSE;
-	}
 
 #ifndef _UNICODE
 	PalFile = fopen(FileName, "wt");
@@ -264,6 +270,8 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 	PalFile = _wfopen(FileName, L"wt");
 #endif//_UNICODE
 	if (!PalFile) {
+		ifree(Pal->Palette);
+		ifree(Pal);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
@@ -271,21 +279,22 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 	// Header needed on all .pal files
 	fputs("JASC-PAL\n0100\n256\n", PalFile);
 
-	PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
-	for (i = 0; i < iCurImage->Pal.PalSize; i += PalBpp) {
+	for (i = 0; i < NumCols; i++) {
 		fprintf(PalFile, "%d %d %d\n",
-			iCurImage->Pal.Palette[i], iCurImage->Pal.Palette[i+1], iCurImage->Pal.Palette[i+2]);
+			Pal->Palette[i * 3], Pal->Palette[i * 3 + 1], Pal->Palette[i * 3 + 2]);
 	}
-
-	NumCols = 256 - NumCols;
-	for (i = 0; i < NumCols; i++) {
+	for (; i < 256; i++) {
 		fprintf(PalFile, "0 0 0\n");
 	}
 
-	ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.Palette = CurPal;
+	ifree(Pal->Palette);
+	ifree(Pal);
 
-	fclose(PalFile);
+	Failed = ferror(PalFile) != 0;
+	if (fclose(PalFile) != 0 || Failed) {
+		ilSetError(IL_FILE_WRITE_ERROR);
+		return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
@@ -297,6 +306,7 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 	ILHANDLE	HaloFile;
 	HALOHEAD	HaloHead;
 	ILushort	*TempPal;
+	ILubyte		*Palette;
 	ILuint		i, Size;
 
 	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
@@ -315,10 +325,13 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1)
+	iSetInputFile(HaloFile);
+	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1) {
+		icloser(HaloFile);
 		return IL_FALSE;
+	}
 
-	if (HaloHead.Id != 'A' + ('H' << 8) || HaloHead.Version != 0xe3) {
+	if (HaloHead.Id != 'A' + ('H' << 8) || HaloHead.Version != 0xe3 || HaloHead.MaxIndex > 255) {
 		icloser(HaloFile);
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
@@ -326,36 +339,27 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 
 	Size = (HaloHead.MaxIndex + 1) * 3;
 	TempPal = (ILushort*)ialloc(Size * sizeof(ILushort));
-	if (TempPal == NULL) {
+	Palette = (ILubyte*)ialloc(Size);
+	if (TempPal == NULL || Palette == NULL) {
 		icloser(HaloFile);
+		ifree(TempPal);
+		ifree(Palette);
 		return IL_FALSE;
 	}
 
 	if (iread(TempPal, sizeof(ILushort), Size) != Size) {
 		icloser(HaloFile);
 		ifree(TempPal);
+		ifree(Palette);
 		return IL_FALSE;
 	}
+	icloser(HaloFile);
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.PalSize = Size;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		icloser(HaloFile);
-		return IL_FALSE;
-	}
-
-	for (i = 0; i < iCurImage->Pal.PalSize; i++, TempPal++) {
-		iCurImage->Pal.Palette[i] = (ILubyte)*TempPal;
+	for (i = 0; i < Size; i++) {
+		Palette[i] = (ILubyte)TempPal[i];
 	}
-	TempPal -= iCurImage->Pal.PalSize;
 	ifree(TempPal);
-
-	icloser(HaloFile);
+	iReplacePal(Palette, Size);
 
 	return IL_TRUE;
 }
@@ -367,9 +371,11 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 //! Loads a .col palette file
 ILboolean ilLoadColPal(ILconst_string FileName)
 {
-	ILuint		RealFileSize, FileSize;
+	ILuint		RealFileSize;
+	ILuint		FileSize;
 	ILushort	Version;
 	ILHANDLE	ColFile;
+	ILboolean	Ret;
 
 	if (!iCheckExtension(FileName, IL_TEXT("col"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -387,17 +393,17 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
+	iSetInputFile(ColFile);
 	iseek(0, IL_SEEK_END);
-	RealFileSize = ftell((FILE*)ColFile);
+	RealFileSize = itell();
 	iseek(0, IL_SEEK_SET);
 
 	if (RealFileSize > 768) {  // has a header
-		fread(&FileSize, 4, 1, (FILE*)ColFile);
+		if (iread(&FileSize, 4, 1) != 1) {
+			icloser(ColFile);
+			return IL_FALSE;
+		}
+		UInt(&FileSize);
 		if ((FileSize - 8) % 3 != 0) {  // check to make sure an even multiple of 3!
 			icloser(ColFile);
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -407,6 +413,7 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 			icloser(ColFile);
 			return IL_FALSE;
 		}
+		UShort(&Version);
 		if (Version != 0xB123) {
 			icloser(ColFile);
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -423,25 +430,10 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 		}
 	}
 
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (iCurImage->Pal.Palette == NULL) {
-		icloser(ColFile);
-		return IL_FALSE;
-	}
-
-	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
-		icloser(ColFile);
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-		return IL_FALSE;
-	}
-
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-
+	Ret = iReadPal(768);
 	icloser(ColFile);
 
-	return IL_TRUE;
+	return Ret;
 }
 
 
@@ -449,6 +441,7 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 ILboolean ilLoadActPal(ILconst_string FileName)
 {
 	ILHANDLE	ActFile;
+	ILboolean	Ret;
 
 	if (!iCheckExtension(FileName, IL_TEXT("act"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -466,27 +459,11 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (!iCurImage->Pal.Palette) {
-		icloser(ActFile);
-		return IL_FALSE;
-	}
-
-	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
-		icloser(ActFile);
-		return IL_FALSE;
-	}
-
+	iSetInputFile(ActFile);
+	Ret = iReadPal(768);
 	icloser(ActFile);
 
-	return IL_TRUE;
+	return Ret;
 }
 
 
@@ -494,6 +471,8 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 ILboolean ilLoadPltPal(ILconst_string FileName)
 {
 	ILHANDLE	PltFile;
+	ILuint		Size;
+	ILboolean	Ret;
 
 	if (!iCheckExtension(FileName, IL_TEXT("plt"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -511,33 +490,18 @@ ILboolean ilLoadPltPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iCurImage->Pal.PalSize = GetLittleUInt();
-	if (iCurImage->Pal.PalSize == 0) {
-		ilSetError(IL_INVALID_FILE_HEADER);
-		return IL_FALSE;
-	}
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
-		icloser(PltFile);
-		return IL_FALSE;
-	}
-
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
+	iSetInputFile(PltFile);
+	Size = GetLittleUInt();
+	if (Size == 0 || Size > 768 || Size % 3 != 0) {
 		icloser(PltFile);
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
+	Ret = iReadPal(Size);
 	icloser(PltFile);
 
-	return IL_TRUE;
+	return Ret;
 }
 
 
@@ -871,14 +835,14 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 // Sets the current palette.
 ILAPI void ILAPIENTRY ilSetPal(ILpal *Pal)
 {
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-	}
+	ILpal	Old = iCurImage->Pal;
 
 	if (Pal->Palette && Pal->PalSize && Pal->PalType != IL_PAL_NONE) {
 		iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-		if (iCurImage->Pal.Palette == NULL)
+		if (iCurImage->Pal.Palette == NULL) {
+			iCurImage->Pal = Old;
 			return;
+		}
 		memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
 		iCurImage->Pal.PalSize = Pal->PalSize;
 		iCurImage->Pal.PalType = Pal->PalType;
@@ -889,219 +853,86 @@ ILAPI void ILAPIENTRY ilSetPal(ILpal *Pal)
 		iCurImage->Pal.PalType = IL_PAL_NONE;
 	}
 
-	return;
-}
-
-
-ILuint CurSort = 0;
-typedef struct COL_CUBE
-{
-	ILubyte	Min[3];
-	ILubyte	Val[3];
-	ILubyte	Max[3];
-} COL_CUBE;
+	if (Old.Palette && Old.PalSize && Old.PalType != IL_PAL_NONE)
+		ifree(Old.Palette);
 
-int sort_func(void *e1, void *e2)
-{
-	return ((COL_CUBE*)e1)->Val[CurSort] - ((COL_CUBE*)e2)->Val[CurSort];
+	return;
 }
 
 
+//! Maps every pixel of the current image to the nearest colour of the palette in FileName.
 ILboolean ILAPIENTRY ilApplyPal(ILconst_string FileName)
 {
-	ILimage		Image, *CurImage = iCurImage;
+	ILimage		Image, *CurImage = iCurImage, *Temp;
 	ILubyte		*NewData;
-	ILuint		*PalInfo, NumColours, NumPix, MaxDist, DistEntry=0, i, j;
+	ILuint		NumColours, NumPix, Dist, MinDist, i, j;
 	ILint		Dist1, Dist2, Dist3;
-	ILboolean	Same;
-	ILenum		Origin;
-//	COL_CUBE	*Cubes;
-
-    if( iCurImage == NULL || (iCurImage->Format != IL_BYTE || iCurImage->Format != IL_UNSIGNED_BYTE) ) {
-    	ilSetError(IL_ILLEGAL_OPERATION);
-        return IL_FALSE;
-    }
+	ILubyte		*Pixel, Entry;
 
-	NewData = (ILubyte*)ialloc(iCurImage->Width * iCurImage->Height * iCurImage->Depth);
-	if (NewData == NULL) {
+	if (iCurImage == NULL || iCurImage->Format == IL_ALPHA ||
+		(iCurImage->Type != IL_BYTE && iCurImage->Type != IL_UNSIGNED_BYTE)) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
 	iCurImage = &Image;
 	imemclear(&Image, sizeof(ILimage));
+	Image.Pal.PalType = IL_PAL_NONE;
 	// IL_PAL_RGB24, because we don't want to make parts transparent that shouldn't be.
 	if (!ilLoadPal(FileName) || !ilConvertPal(IL_PAL_RGB24)) {
-		ifree(NewData);
+		ifree(Image.Pal.Palette);
 		iCurImage = CurImage;
 		return IL_FALSE;
 	}
+	iCurImage = CurImage;
 
-	NumColours = Image.Pal.PalSize / 3;  // RGB24 is 3 bytes per entry.
-	PalInfo = (ILuint*)ialloc(NumColours * sizeof(ILuint));
-	if (PalInfo == NULL) {
+	Temp = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
+	NumPix = iCurImage->Width * iCurImage->Height * iCurImage->Depth;
+	NewData = (ILubyte*)ialloc(NumPix);
+	if (Temp == NULL || NewData == NULL) {
+		if (Temp != NULL)
+			ilCloseImage(Temp);
 		ifree(NewData);
-		iCurImage = CurImage;
+		ifree(Image.Pal.Palette);
 		return IL_FALSE;
 	}
 
-	NumPix = CurImage->SizeOfData / ilGetBppFormat(CurImage->Format);
-	switch (CurImage->Format)
-	{
-		case IL_COLOUR_INDEX:
-			iCurImage = CurImage;
-			if (!ilConvertPal(IL_PAL_RGB24)) {
-				ifree(NewData);
-				ifree(PalInfo);
-				return IL_FALSE;
-			}
-
-			NumPix = iCurImage->Pal.PalSize / ilGetBppPal(iCurImage->Pal.PalType);
-			for (i = 0; i < NumPix; i++) {
-				for (j = 0; j < Image.Pal.PalSize; j += 3) {
-					// No need to perform a sqrt.
-					Dist1 = (ILint)iCurImage->Pal.Palette[i] - (ILint)Image.Pal.Palette[j];
-					Dist2 = (ILint)iCurImage->Pal.Palette[i+1] - (ILint)Image.Pal.Palette[j+1];
-					Dist3 = (ILint)iCurImage->Pal.Palette[i+2] - (ILint)Image.Pal.Palette[j+2];
-					PalInfo[j / 3] = Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3;
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				iCurImage->Pal.Palette[i] = DistEntry;
-			}
-
-			for (i = 0; i < iCurImage->SizeOfData; i++) {
-				NewData[i] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			}
-			break;
-		case IL_RGB:
-		case IL_RGBA:
-			/*Cube = (COL_CUBE*)ialloc(NumColours * sizeof(COL_CUBE));
-			// @TODO:  Check if ialloc failed here!
-			for (i = 0; i < NumColours; i++)
-				memcpy(&Cubes[i].Val, Image.Pal.Palette[i * 3], 3);
-			for (j = 0; j < 3; j++) {
-				qsort(Cubes, NumColours, sizeof(COL_CUBE), sort_func);
-				Cubes[0].Min = 0;
-				Cubes[NumColours-1] = UCHAR_MAX;
-				NumColours--;
-				for (i = 1; i < NumColours; i++) {
-					Cubes[i].Min[CurSort] = Cubes[i-1].Val[CurSort] + 1;
-					Cubes[i-1].Max[CurSort] = Cubes[i].Val[CurSort] - 1;
-				}
-				CurSort++;
-				NumColours++;
-			}*/
-			for (i = 0; i < CurImage->SizeOfData; i += CurImage->Bpp) {
-				Same = IL_TRUE;
-				if (i != 0) {
-					for (j = 0; j < CurImage->Bpp; j++) {
-						if (CurImage->Data[i-CurImage->Bpp+j] != CurImage->Data[i+j]) {
-							Same = IL_FALSE;
-							break;
-						}
-					}
-				}
-				if (Same) {
-					NewData[i / CurImage->Bpp] = DistEntry;
-					continue;
-				}
-				for (j = 0; j < Image.Pal.PalSize; j += 3) {
-					// No need to perform a sqrt.
-					Dist1 = (ILint)CurImage->Data[i] - (ILint)Image.Pal.Palette[j];
-					Dist2 = (ILint)CurImage->Data[i+1] - (ILint)Image.Pal.Palette[j+1];
-					Dist3 = (ILint)CurImage->Data[i+2] - (ILint)Image.Pal.Palette[j+2];
-					PalInfo[j / 3] = Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3;
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				NewData[i / CurImage->Bpp] = DistEntry;
-			}
-
-			break;
-
-		case IL_BGR:
-		case IL_BGRA:
-			for (i = 0; i < CurImage->SizeOfData; i += CurImage->Bpp) {
-				for (j = 0; j < NumColours; j++) {
-					// No need to perform a sqrt.
-					PalInfo[j] = ((ILint)CurImage->Data[i+2] - (ILint)Image.Pal.Palette[j * 3]) *
-						((ILint)CurImage->Data[i+2] - (ILint)Image.Pal.Palette[j * 3]) + 
-						((ILint)CurImage->Data[i+1] - (ILint)Image.Pal.Palette[j * 3 + 1]) *
-						((ILint)CurImage->Data[i+1] - (ILint)Image.Pal.Palette[j * 3 + 1]) +
-						((ILint)CurImage->Data[i] - (ILint)Image.Pal.Palette[j * 3 + 2]) *
-						((ILint)CurImage->Data[i] - (ILint)Image.Pal.Palette[j * 3 + 2]);
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				NewData[i / CurImage->Bpp] = DistEntry;
-			}
-
-			break;
-
-		case IL_LUMINANCE:
-		case IL_LUMINANCE_ALPHA:
-			for (i = 0; i < CurImage->SizeOfData; i += CurImage->Bpp ) {
-				for (j = 0; j < NumColours; j++) {
-					// No need to perform a sqrt.
-					PalInfo[j] = ((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3]) *
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3]) + 
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 1]) *
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 1]) +
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 2]) *
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 2]);
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				NewData[i] = DistEntry;
+	NumColours = Image.Pal.PalSize / 3;  // RGB24 is 3 bytes per entry.
+	for (i = 0; i < NumPix; i++) {
+		Pixel = Temp->Data + i * 3;
+		// The same colour as before maps to the same entry.
+		if (i != 0 && !memcmp(Pixel, Pixel - 3, 3)) {
+			NewData[i] = NewData[i-1];
+			continue;
+		}
+		MinDist = UINT_MAX;
+		Entry = 0;
+		for (j = 0; j < NumColours; j++) {
+			// No need to perform a sqrt.
+			Dist1 = (ILint)Pixel[0] - (ILint)Image.Pal.Palette[j * 3];
+			Dist2 = (ILint)Pixel[1] - (ILint)Image.Pal.Palette[j * 3 + 1];
+			Dist3 = (ILint)Pixel[2] - (ILint)Image.Pal.Palette[j * 3 + 2];
+			Dist = Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3;
+			if (Dist < MinDist) {
+				Entry = (ILubyte)j;
+				MinDist = Dist;
 			}
-
-			break;
-
-		default:  // Should be no other!
-			ilSetError(IL_INTERNAL_ERROR);
-			return IL_FALSE;
-	}
-
-	iCurImage = CurImage;
-	Origin = iCurImage->Origin;
-	if (!ilTexImage(iCurImage->Width, iCurImage->Height, iCurImage->Depth, 1,
-		IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NewData)) {
-		ifree(Image.Pal.Palette);
-		ifree(PalInfo);
-		ifree(NewData);
-		return IL_FALSE;
+		}
+		NewData[i] = Entry;
 	}
-	iCurImage->Origin = Origin;
+	ilCloseImage(Temp);
 
-	iCurImage->Pal.Palette = Image.Pal.Palette;
-	iCurImage->Pal.PalSize = Image.Pal.PalSize;
-	iCurImage->Pal.PalType = Image.Pal.PalType;
-	ifree(PalInfo);
-	ifree(NewData);
+	ifree(iCurImage->Data);
+	ifree(iCurImage->Pal.Palette);
+	iCurImage->Data = NewData;
+	iCurImage->Pal = Image.Pal;
+	iCurImage->Format = IL_COLOUR_INDEX;
+	iCurImage->Type = IL_UNSIGNED_BYTE;
+	iCurImage->Bpp = 1;
+	iCurImage->Bpc = 1;
+	iCurImage->Bps = iCurImage->Width;
+	iCurImage->SizeOfPlane = iCurImage->Bps * iCurImage->Height;
+	iCurImage->SizeOfData = NumPix;
 
 	return IL_TRUE;
 }
-- 
2.43.0


From b3f4cb3f0e5eda419117ec465398d525d87025dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 085/161] fix: C headers declare the type before the
 conversion, leak the name and hide write errors

---
 DevIL/src-IL/src/il_header.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_header.cpp b/DevIL/src-IL/src/il_header.cpp
index 4115afe..090f4c0 100644
--- a/DevIL/src-IL/src/il_header.cpp
+++ b/DevIL/src-IL/src/il_header.cpp
@@ -23,39 +23,44 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 	FILE		*HeadFile;
 	ILuint		i = 0, j;
 	ILimage		*TempImage;
-	const char	*Name;
+	const char	*Name, *SetName;
+	ILboolean	Failed;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Name = iGetString(IL_CHEAD_HEADER_STRING);
-	if (Name == NULL)
-		Name = InternalName;
+	SetName = iGetString(IL_CHEAD_HEADER_STRING);
+	Name = SetName != NULL ? SetName : InternalName;
 
 	if (FileName == NULL || Name == NULL ||
 		ilStrLen(FileName) < 1 || ilCharStrLen(Name) < 1) {
 		ilSetError(IL_INVALID_VALUE);
+		ifree(SetName);
 		return IL_FALSE;
 	}
 
 	if (!iCheckExtension(FileName, IL_TEXT("h"))) {
 		ilSetError(IL_INVALID_EXTENSION);
+		ifree(SetName);
 		return IL_FALSE;
 	}
 
 	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
 		if (iFileExists(FileName)) {
 			ilSetError(IL_FILE_ALREADY_EXISTS);
+            ifree(SetName);
             return IL_FALSE;
 		}
 	}
 
 	if (iCurImage->Bpc > 1) {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL)
-           return IL_FALSE;
+		if (TempImage == NULL) {
+			ifree(SetName);
+			return IL_FALSE;
+		}
 	} else {
 		TempImage = iCurImage;
 	}
@@ -72,7 +77,10 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 #endif//_UNICODE
 
 	if (HeadFile == NULL) {
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
+        ifree(SetName);
         return IL_FALSE;
 	}
 
@@ -83,7 +91,7 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 	fprintf(HeadFile, "#define IMAGE_WIDTH   %d\n", iCurImage->Width);
 	fprintf(HeadFile, "#define IMAGE_HEIGHT  %d\n", iCurImage->Height);	
 	fprintf(HeadFile, "#define IMAGE_DEPTH   %d\n\n\n", iCurImage->Depth);
-	fprintf(HeadFile, "#define IMAGE_TYPE    0x%X\n", iCurImage->Type);
+	fprintf(HeadFile, "#define IMAGE_TYPE    0x%X\n", TempImage->Type);
 	fprintf(HeadFile, "#define IMAGE_FORMAT  0x%X\n\n\n", iCurImage->Format);
     fprintf(HeadFile, "ILubyte %s[] = {\n", Name);
         
@@ -126,7 +134,14 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 
 		fprintf(HeadFile, "};\n");
 	}
-	fclose(HeadFile);
+	ifree(SetName);
+
+	Failed = ferror(HeadFile) != 0;
+	if (fclose(HeadFile) != 0 || Failed) {
+		ilSetError(IL_FILE_WRITE_ERROR);
+		return IL_FALSE;
+	}
+
 	return IL_TRUE;
 }
 
-- 
2.43.0


From 290b9f8841c92eca917cab40f399958f1dbc8b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 086/161] fix: DDS loading relied on size fields, unread
 headers and half-built chains; wrong block colours

---
 DevIL/src-IL/include/il_dds.h |   3 +-
 DevIL/src-IL/src/il_dds.cpp   | 871 +++++++++++++++-------------------
 2 files changed, 381 insertions(+), 493 deletions(-)

diff --git a/DevIL/src-IL/include/il_dds.h b/DevIL/src-IL/include/il_dds.h
index d7db8e5..d4c9871 100644
--- a/DevIL/src-IL/include/il_dds.h
+++ b/DevIL/src-IL/include/il_dds.h
@@ -347,8 +347,7 @@ ILboolean	DecompressAti1n();
 ILboolean	DecompressRXGB();
 ILboolean	iConvFloat16ToFloat32(ILuint* dest, ILushort* src, ILuint size);
 ILboolean	DecompressFloat(ILuint lCompFormat);
-void		CorrectPreMult();
-void		GetBitsFromMask(ILuint Mask, ILuint *ShiftLeft, ILuint *ShiftRight);
+void		CorrectPreMult(ILimage *lImage);
 ILboolean	iSaveDdsInternal(void);
 ILboolean	WriteHeader(ILimage *Image, ILenum DXTCFormat, ILuint CubeFlags);
 ILushort	*CompressTo565(ILimage *Image);
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index a1df617..607b021 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -102,7 +102,9 @@ ILboolean iGetDdsHead(DDSHEAD *Header)
 {
 	ILint i;
 
-	iread(&Header->Signature, 1, 4);
+	memset(Header, 0, sizeof(DDSHEAD));
+	if (iread(&Header->Signature, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Size1 = GetLittleUInt();
 	Header->Flags1 = GetLittleUInt();
 	Header->Height = GetLittleUInt();
@@ -127,10 +129,14 @@ ILboolean iGetDdsHead(DDSHEAD *Header)
 	Header->ddsCaps2 = GetLittleUInt();
 	Header->ddsCaps3 = GetLittleUInt();
 	Header->ddsCaps4 = GetLittleUInt();
-	Header->TextureStage = GetLittleUInt();
+	// The last field is the only one whose value never matters, so its presence shows
+	//  that the whole header was there.
+	if (iread(&Header->TextureStage, 1, 4) != 4)
+		return IL_FALSE;
+	UInt(&Header->TextureStage);
 
-	if (Head.Depth == 0)
-		Head.Depth = 1;
+	if (Header->Depth == 0)
+		Header->Depth = 1;
 
 	return IL_TRUE;
 }
@@ -143,7 +149,9 @@ ILboolean iGetDXT10Head(DXT10HEAD *Header)
 	Header->resourceDimension = GetLittleUInt();
 	Header->miscFlag = GetLittleUInt();
 	Header->arraySize = GetLittleUInt();
-	Header->miscFlags2 = GetLittleUInt();
+	if (iread(&Header->miscFlags2, 1, 4) != 4)
+		return IL_FALSE;
+	UInt(&Header->miscFlags2);
 
 	return IL_TRUE;
 }
@@ -154,11 +162,10 @@ ILboolean iIsValidDds()
 {
 	ILboolean	IsValid;
 	DDSHEAD		Head;
+	ILuint		Pos = itell();
 
-	iGetDdsHead(&Head);
-	iseek(-(ILint)sizeof(DDSHEAD), IL_SEEK_CUR);  // Go ahead and restore to previous state
-
-	IsValid = iCheckDds(&Head);
+	IsValid = iGetDdsHead(&Head) && iCheckDds(&Head);
+	iseek(Pos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	return IsValid;
 }
@@ -178,6 +185,9 @@ ILboolean iCheckDds(DDSHEAD *Head)
 		return IL_FALSE;
 	if (Head->Width == 0 || Head->Height == 0)
 		return IL_FALSE;
+	// The dimensions are kept in signed variables.
+	if (Head->Width > 0x7FFFFFF0 || Head->Height > 0x7FFFFFF0)
+		return IL_FALSE;
 	return IL_TRUE;
 }
 
@@ -185,7 +195,7 @@ ILboolean iCheckDds(DDSHEAD *Head)
 // Internal function used to check if the HEADER is a valid DirectX 10 extension header.
 ILboolean iCheckDxt10(DXT10HEAD *Head)
 {
-	if (Head->resourceDimension < 2 && Head->resourceDimension > 4)
+	if (Head->resourceDimension < 2 || Head->resourceDimension > 4)
 		return IL_FALSE;
 	if (Head->dxgiFormat > DXGI_FORMAT_V408)
 		return IL_FALSE;
@@ -237,12 +247,15 @@ ILboolean ilLoadDdsL(const void *Lump, ILuint Size)
 }
 
 
-void Check16BitComponents(DDSHEAD *Header)
+static ILuint CountBitsFromMask(ILuint Mask);
+
+void Check16BitComponents(DDSHEAD *Header, ILuint CompFormat, ILboolean IsDXT10)
 {
-	if (Header->RGBBitCount != 32)
+	// Only uncompressed 32-bit colours with alpha are described by the masks.
+	if (IsDXT10 || CompFormat != PF_ARGB || Header->RGBBitCount != 32)
 		Has16BitComponents = IL_FALSE;
 	// a2b10g10r10 format
-	if (Header->RBitMask == 0x3FF00000 && Header->GBitMask == 0x000FFC00 && Header->BBitMask == 0x000003FF
+	else if (Header->RBitMask == 0x3FF00000 && Header->GBitMask == 0x000FFC00 && Header->BBitMask == 0x000003FF
 		&& Header->RGBAlphaBitMask == 0xC0000000)
 		Has16BitComponents = IL_TRUE;
 	// a2r10g10b10 format
@@ -311,22 +324,16 @@ ILubyte iCompFormatToChannelCount(ILenum Format)
 
 ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	i;
-	ILubyte	Bpp, Channels, Bpc;
+	ILuint	i, Face = 0;
 	ILimage *startImage;
 
-	if (IsDXT10)  //@TODO: Get this working with the DirectX 10 textures
+	if (IsDXT10) {  //@TODO: Get this working with the DirectX 10 textures
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
+	}
 
 	CompData = NULL;
 
-	Bpp = iCompFormatToBpp(CompFormat);
-	Channels = iCompFormatToChannelCount(CompFormat);
-	Bpc = iCompFormatToBpc(CompFormat);
-	if (CompFormat == PF_LUMINANCE && Head.RGBBitCount == 16 && Head.RBitMask == 0xFFFF) {  //@TODO: This is a HACK.
-		Bpc = 2; Bpp = 2;
-	}
-
 	startImage = Image;
 	// Run through cube map possibilities
 	for (i = 0; i < CUBEMAP_SIDES; i++) {
@@ -335,61 +342,42 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 		Height = Head.Height;
 		Depth = Head.Depth;
 		if (Head.ddsCaps2 & CubemapDirections[i]) {
-			if (i != 0) {
-				Image->Faces = ilNewImage(Width, Height, Depth, Channels, Bpc);
-				if (Image->Faces == NULL)
-					return IL_FALSE;
+			if (!ReadData(CompFormat, IsDXT10))
+				goto cube_fail;
 
-				Image = Image->Faces;
-
-				if (CompFormat == PF_R16F
-					|| CompFormat == PF_G16R16F
-					|| CompFormat == PF_A16B16G16R16F
-					|| CompFormat == PF_R32F
-					|| CompFormat == PF_G32R32F
-					|| CompFormat == PF_A32B32G32R32F) {
-					// DevIL's format autodetection doesn't work for
-					//  float images...correct this.
-					Image->Type = IL_FLOAT;
-					Image->Bpp = Channels;
-				}
+			// The first side the file has becomes the image itself, the others its faces.
+			if (Face != 0) {
+				Image->Faces = ilNewImage(1, 1, 1, 1, 1);
+				if (Image->Faces == NULL)
+					goto cube_fail;
 
 				ilBindImage(ilGetCurName()); // Set to parent image first.
 				//ilActiveImage(i); //@TODO: now Image == iCurImage...globals SUCK, fix this!!!
-				ilActiveFace(i);
+				if (!ilActiveFace(Face))
+					goto cube_fail;
+				Image = iCurImage;
 			}
 
-			if (!ReadData(CompFormat, IsDXT10))
-				return IL_FALSE;
-
-			if (!AllocImage(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
+			if (!AllocImage(CompFormat, IsDXT10))
+				goto cube_fail;
 
 			Image->CubeFlags = CubemapDirections[i];
 
-			if (!DdsDecompress(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
+			if (!DdsDecompress(CompFormat, IsDXT10))
+				goto cube_fail;
 
-			if (!ReadMipmaps(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
+			if (!ReadMipmaps(CompFormat, IsDXT10))
+				goto cube_fail;
+
+			Face++;
 		}
 	}
 
+	if (Face == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	if (CompData) {
 		ifree(CompData);
 		CompData = NULL;
@@ -397,6 +385,15 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 
 	ilBindImage(ilGetCurName());  // Set to parent image first.
 	return ilFixImage();
+
+cube_fail:
+	if (CompData) {
+		ifree(CompData);
+		CompData = NULL;
+	}
+	if (iCurImage != startImage)
+		ilBindImage(ilGetCurName());
+	return IL_FALSE;
 }
 
 
@@ -448,13 +445,11 @@ ILboolean iLoadDdsInternal()
 		}
 
 		CompFormat = HeadDXT10.dxgiFormat;
-	}
-	else
-	{
+		if (HeadDXT10.resourceDimension != D3D10_RESOURCE_DIMENSION_TEXTURE3D)
+			Head.Depth = 1;
 	}
 
-	// Needed for DXT10?
-	Check16BitComponents(&Head);
+	Check16BitComponents(&Head, CompFormat, IsDXT10);
 
 	// Microsoft bug, they're not following their own documentation.
 	if (!(Head.Flags1 & (DDS_LINEARSIZE | DDS_PITCH))
@@ -463,6 +458,12 @@ ILboolean iLoadDdsInternal()
 		Head.LinearSize = BlockSize;
 	}
 
+	AdjustVolumeTexture(&Head, CompFormat, IsDXT10);
+	if (Head.Depth > 0x7FFFFFF0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	Image = iCurImage;
 	if (Head.ddsCaps1 & DDS_COMPLEX) {
 		if (Head.ddsCaps2 & DDS_CUBEMAP) {
@@ -475,7 +476,6 @@ ILboolean iLoadDdsInternal()
 	Width = Head.Width;
 	Height = Head.Height;
 	Depth = Head.Depth;
-	AdjustVolumeTexture(&Head, CompFormat, IsDXT10);
 
 	if (!ReadData(CompFormat, IsDXT10))
 		return IL_FALSE;
@@ -823,61 +823,125 @@ void AdjustVolumeTexture(DDSHEAD *Head, ILuint CompFormat, ILboolean IsDXT10)
 }
 
 
+// Returns the size of one surface as the format defines it.  The sizes recorded in the
+//  header cannot be relied on.  0 means that the format cannot be read.
+static ILuint iDdsDataSize(ILuint CompFormat, ILboolean IsDXT10, ILuint Width, ILuint Height, ILuint Depth)
+{
+	double	Blocks, Size;
+
+	Blocks = (double)((Width + 3) / 4) * ((Height + 3) / 4) * Depth;
+	Size = (double)Width * Height * Depth;
+
+	if (IsDXT10) {
+		Size *= 4;  // All the formats that AllocImage accepts.
+	}
+	else switch (CompFormat)
+	{
+		case PF_ARGB:
+		case PF_RGB:
+		case PF_LUMINANCE:
+		case PF_LUMINANCE_ALPHA:
+			//don't use the iCompFormatToBpp() function because this way
+			//argb images with only 8 bits (eg. a1r2g3b2) work as well
+			if (Head.RGBBitCount != 8 && Head.RGBBitCount != 16 && Head.RGBBitCount != 24 && Head.RGBBitCount != 32)
+				return 0;
+			Size *= Head.RGBBitCount / 8;
+			break;
+
+		case PF_DXT1:
+		case PF_ATI1N:
+			Size = Blocks * 8;
+			break;
+
+		case PF_DXT2:
+		case PF_DXT3:
+		case PF_DXT4:
+		case PF_DXT5:
+		case PF_3DC:
+		case PF_RXGB:
+			Size = Blocks * 16;
+			break;
+
+		case PF_R16F:
+			Size *= 2;
+			break;
+
+		case PF_A16B16G16R16:
+		case PF_G16R16F:
+		case PF_A16B16G16R16F:
+		case PF_R32F:
+		case PF_G32R32F:
+		case PF_A32B32G32R32F:
+			Size *= iCompFormatToBpp(CompFormat);
+			break;
+
+		default:
+			return 0;
+	}
+
+	if (Size > 0x7FFFFFFF)
+		return 0;
+	return (ILuint)Size;
+}
+
+
 // Reads the compressed data
 ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	Bps;
-	ILint	y, z;
-	ILubyte	*Temp;
-
 	if (CompData) {
 		ifree(CompData);
 		CompData = NULL;
 	}
 
-	if (Head.Flags1 & DDS_LINEARSIZE) {
-		//Head.LinearSize = Head.LinearSize * Depth;
+	CompSize = iDdsDataSize(CompFormat, IsDXT10, Width, Height, Depth);
+	if (CompSize == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
-		CompData = (ILubyte*)ialloc(Head.LinearSize);
-		if (CompData == NULL) {
-			return IL_FALSE;
-		}
+	CompData = (ILubyte*)ialloc(CompSize);
+	if (CompData == NULL) {
+		return IL_FALSE;
+	}
 
-		if (iread(CompData, 1, Head.LinearSize) != (ILuint)Head.LinearSize) {
-			ifree(CompData);
-			CompData = NULL;
-			return IL_FALSE;
-		}
+	if (iread(CompData, 1, CompSize) != CompSize) {
+		ifree(CompData);
+		CompData = NULL;
+		return IL_FALSE;
 	}
-	else {
-		if (IsDXT10)
-			Bps = Head.LinearSize;  //@TODO: Head.RGBBitCount is always 0 from the texconv.exe tool?
-		else
-			Bps = Width * Head.RGBBitCount / 8;
-		CompSize = Bps * Height * Depth;
-		if (CompSize == 0) {
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
-		}
 
-		CompData = (ILubyte*)ialloc(CompSize);
-		if (CompData == NULL) {
-			return IL_FALSE;
-		}
+	return IL_TRUE;
+}
 
-		Temp = CompData;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				if (iread(Temp, 1, Bps) != Bps) {
-					ifree(CompData);
-					CompData = NULL;
-					return IL_FALSE;
-				}
-				Temp += Bps;
-			}
-		}
+
+// Keeps a copy of the compressed data with the image if the user wants that.
+static ILboolean iKeepDxtcData(ILimage *Image, ILuint CompFormat)
+{
+	ILenum	DxtcFormat;
+
+	switch (CompFormat)
+	{
+		case PF_DXT1:	DxtcFormat = IL_DXT1;	break;
+		case PF_DXT2:	DxtcFormat = IL_DXT2;	break;
+		case PF_DXT3:	DxtcFormat = IL_DXT3;	break;
+		case PF_DXT4:	DxtcFormat = IL_DXT4;	break;
+		case PF_DXT5:	DxtcFormat = IL_DXT5;	break;
+		case PF_RXGB:	DxtcFormat = IL_RXGB;	break;
+		default:
+			//right now there's no OpenGL api to use the compressed 3dc data, so
+			//throw it away (I don't know how DirectX works, though)?
+			return IL_TRUE;
 	}
 
+	if (ilGetInteger(IL_KEEP_DXTC_DATA) != IL_TRUE || CompData == NULL)
+		return IL_TRUE;
+
+	Image->DxtcData = (ILubyte*)ialloc(CompSize);
+	if (Image->DxtcData == NULL)
+		return IL_FALSE;
+	Image->DxtcFormat = DxtcFormat;
+	Image->DxtcSize = CompSize;
+	memcpy(Image->DxtcData, CompData, CompSize);
 	return IL_TRUE;
 }
 
@@ -954,14 +1018,8 @@ ILboolean AllocImage(ILuint CompFormat, ILboolean IsDXT10)
 
 				if (!ilTexImage(Width, Height, Depth, channels, format, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
-				if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE && CompData) {
-					iCurImage->DxtcData = (ILubyte*)ialloc(Head.LinearSize);
-					if (iCurImage->DxtcData == NULL)
-						return IL_FALSE;
-					iCurImage->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
-					iCurImage->DxtcSize = Head.LinearSize;
-					memcpy(iCurImage->DxtcData, CompData, iCurImage->DxtcSize);
-				}
+				if (!iKeepDxtcData(iCurImage, CompFormat))
+					return IL_FALSE;
 				break;
 		}
 	}
@@ -970,15 +1028,15 @@ ILboolean AllocImage(ILuint CompFormat, ILboolean IsDXT10)
 		switch (CompFormat)
 		{
 			case DXGI_FORMAT_R8G8B8A8_UNORM:
-				if (!ilTexImage(Width, Height, Depth, 4, IL_RGBA, Has16BitComponents ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL))
+				if (!ilTexImage(Width, Height, Depth, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 				break;
 			case DXGI_FORMAT_B8G8R8A8_UNORM:
-				if (!ilTexImage(Width, Height, Depth, 4, IL_BGRA, Has16BitComponents ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL))
+				if (!ilTexImage(Width, Height, Depth, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 				break;
 			case DXGI_FORMAT_B8G8R8A8_UNORM_SRGB:
-				if (!ilTexImage(Width, Height, Depth, 4, IL_BGRA, Has16BitComponents ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL))
+				if (!ilTexImage(Width, Height, Depth, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 				break;
 
@@ -1069,55 +1127,12 @@ ILboolean DdsDecompress(ILuint CompFormat, ILboolean IsDXT10)
 
 ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	i, CompFactor=0;
-	ILubyte	Bpp, Channels, Bpc;
-	ILimage	*StartImage, *TempImage;
-	ILuint	LastLinear;
-	ILuint	minW, minH;
-
-	ILboolean isCompressed = IL_FALSE;
+	ILuint	i;
+	ILimage	*StartImage;
 
 	if (IsDXT10)  //@TODO: Add in mipmap support
 		return IL_TRUE;
 
-	Bpp = iCompFormatToBpp(CompFormat);
-	Channels = iCompFormatToChannelCount(CompFormat);
-	Bpc = iCompFormatToBpc(CompFormat);
-	if (CompFormat == PF_LUMINANCE && Head.RGBBitCount == 16 && Head.RBitMask == 0xFFFF) { //HACK
-		Bpc = 2; Bpp = 2;
-	}
-
-	//This doesn't work for images which first mipmap (= the image
-	//itself) has width or height < 4
-	//if (Head.Flags1 & DDS_LINEARSIZE) {
-	//	CompFactor = (Width * Height * Depth * Bpp) / Head.LinearSize;
-	//}
-	switch (CompFormat)
-	{
-		case PF_DXT1:
-			// This is officially 6, we have 8 here because DXT1 may contain alpha.
-			CompFactor = 8;
-			break;
-		case PF_DXT2:
-		case PF_DXT3:
-		case PF_DXT4:
-		case PF_DXT5:
-			CompFactor = 4;
-			break;
-		case PF_RXGB:
-		case PF_3DC:
-			// This is officially 4 for 3dc, but that's bullshit :) There's no
-			//  alpha data in 3dc images.
-			CompFactor = 3;
-			break;
-
-		case PF_ATI1N:
-			CompFactor = 2;
-			break;
-		default:
-			CompFactor = 1;
-	}
-
 	StartImage = Image;
 
 	if (!(Head.Flags1 & DDS_MIPMAPCOUNT) || Head.MipMapCount == 0) {
@@ -1127,9 +1142,12 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 		Head.MipMapCount = 1;
 	}
 
-	LastLinear = Head.LinearSize;
 	for (i = 0; i < Head.MipMapCount - 1; i++)
 	{
+		// A chain ends with its smallest level.
+		if (Depth == 1 && Width == 1 && Height == 1)
+			break;
+
 		Depth = Depth / 2;
 		Width = Width / 2;
 		Height = Height / 2;
@@ -1141,78 +1159,29 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 		if (Height == 0) 
 			Height = 1;
 
-		Image->Mipmaps = ilNewImage(Width, Height, Depth, Channels, Bpc);
+		if (!ReadData(CompFormat, IsDXT10))
+			goto mip_fail;
+
+		Image->Mipmaps = ilNewImageFull(Width, Height, Depth, StartImage->Bpp, StartImage->Format, StartImage->Type, NULL);
 		if (Image->Mipmaps == NULL)
 			goto mip_fail;
 		Image = Image->Mipmaps;
 		Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
-		if (Head.Flags1 & DDS_LINEARSIZE) {
-			if (CompFormat == PF_R16F
-				|| CompFormat == PF_G16R16F
-				|| CompFormat == PF_A16B16G16R16F
-				|| CompFormat == PF_R32F
-				|| CompFormat == PF_G32R32F
-				|| CompFormat == PF_A32B32G32R32F) {
-				Head.LinearSize = Width * Height * Depth * Bpp;
-
-				//DevIL's format autodetection doesn't work for
-				//float images...correct this
-				Image->Type = IL_FLOAT;
-				Image->Bpp = Channels;
-			}
-			else if (CompFormat == PF_A16B16G16R16)
-				Head.LinearSize = Width * Height * Depth * Bpp;
-			else if (CompFormat != PF_RGB && CompFormat != PF_ARGB
-				&& CompFormat != PF_LUMINANCE
-				&& CompFormat != PF_LUMINANCE_ALPHA) {
-
-				//compressed format
-				minW = (((Width+3)/4))*4;
-				minH = (((Height+3)/4))*4;
-				Head.LinearSize = (minW * minH * Depth * Bpp) / CompFactor;
-
-				isCompressed = IL_TRUE;
-			}
-			else {
-				//don't use Bpp to support argb images with less than 32 bits
-				Head.LinearSize = Width * Height * Depth * (Head.RGBBitCount >> 3);
-			}
-		}
-		else {
-			Head.LinearSize >>= 1;
-		}
-
-		if (!ReadData(CompFormat, IsDXT10))
+		if (!iKeepDxtcData(Image, CompFormat))
 			goto mip_fail;
 
-		if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE && isCompressed == IL_TRUE && CompData) {
-			Image->DxtcData = (ILubyte*)ialloc(Head.LinearSize);
-			if (Image->DxtcData == NULL)
-				return IL_FALSE;
-			Image->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
-			Image->DxtcSize = Head.LinearSize;
-			memcpy(Image->DxtcData, CompData, Image->DxtcSize);
-		}
-
 		if (!DdsDecompress(CompFormat, IsDXT10))
 			goto mip_fail;
 	}
 
-	Head.LinearSize = LastLinear;
 	Image = StartImage;
 
 	return IL_TRUE;
 
 mip_fail:
 	Image = StartImage;
-	StartImage = StartImage->Mipmaps;
-	while (StartImage) {
-		TempImage = StartImage;
-		StartImage = StartImage->Mipmaps;
-		ifree(TempImage);
-	}
-
+	ilCloseImage(Image->Mipmaps);
 	Image->Mipmaps = NULL;
 	return IL_FALSE;
 }
@@ -1231,11 +1200,11 @@ void DxtcReadColors(const ILubyte* Data, Color8888* Out)
 	r1 = (Data[3] & 0xF8) >> 3;
 
 	Out[0].r = r0 << 3 | r0 >> 2;
-	Out[0].g = g0 << 2 | g0 >> 3;
+	Out[0].g = g0 << 2 | g0 >> 4;
 	Out[0].b = b0 << 3 | b0 >> 2;
 
 	Out[1].r = r1 << 3 | r1 >> 2;
-	Out[1].g = g1 << 2 | g1 >> 3;
+	Out[1].g = g1 << 2 | g1 >> 4;
 	Out[1].b = b1 << 3 | b1 >> 2;
 }
 
@@ -1249,8 +1218,8 @@ void DxtcReadColor(ILushort Data, Color8888* Out)
 	r = (Data & 0xF800) >> 11;
 
 	Out->r = r << 3 | r >> 2;
-	Out->g = g << 2 | g >> 3;
-	Out->b = b << 3 | r >> 2;
+	Out->g = g << 2 | g >> 4;
+	Out->b = b << 3 | b >> 2;
 }
 
 
@@ -1262,9 +1231,9 @@ ILboolean DecompressDXT2(ILimage *lImage, ILubyte *lCompData)
 {
 	// Can do color & alpha same as dxt3, but color is pre-multiplied 
 	//   so the result will be wrong unless corrected. 
-	if (!DecompressDXT3(Image, CompData))
+	if (!DecompressDXT3(lImage, lCompData))
 		return IL_FALSE;
-	CorrectPreMult();
+	CorrectPreMult(lImage);
 
 	return IL_TRUE;
 }
@@ -1347,11 +1316,11 @@ ILboolean DecompressDXT4(ILimage *lImage, ILubyte *lCompData)
 {
 	// Can do color & alpha same as dxt5, but color is pre-multiplied 
 	//   so the result will be wrong unless corrected. 
-	if (!DecompressDXT5(Image, CompData))
+	if (!DecompressDXT5(lImage, lCompData))
 		return IL_FALSE;
-	CorrectPreMult();
+	CorrectPreMult(lImage);
 
-	return IL_FALSE;
+	return IL_TRUE;
 }
 
 
@@ -1485,9 +1454,9 @@ ILboolean Decompress3Dc()
 		return IL_FALSE;
 
 	Temp = CompData;
-	Offset = 0;
 	for (z = 0; z < Depth; z++) {
 		for (y = 0; y < Height; y += 4) {
+			Offset = z * Image->SizeOfPlane + y * Image->Bps;
 			for (x = 0; x < Width; x += 4) {
 				Temp2 = Temp + 8;
 
@@ -1557,7 +1526,6 @@ ILboolean Decompress3Dc()
 				//skip bytes that were read via Temp2
 				Temp += 8;
 			}
-			Offset += Image->Bps*4;
 		}
 	}
 
@@ -1576,9 +1544,9 @@ ILboolean DecompressAti1n()
 		return IL_FALSE;
 
 	Temp = CompData;
-	Offset = 0;
 	for (z = 0; z < Depth; z++) {
 		for (y = 0; y < Height; y += 4) {
+			Offset = z * Image->SizeOfPlane + y * Image->Bps;
 			for (x = 0; x < Width; x += 4) {
 				//Read palette
 				t1 = Colours[0] = Temp[0];
@@ -1616,7 +1584,6 @@ ILboolean DecompressAti1n()
 					Temp += 3;
 				}
 			}
-			Offset += Image->Bps*4;
 		}
 	}
 
@@ -1631,7 +1598,6 @@ ILboolean DecompressRXGB()
 {
 	int			x, y, z, i, j, k, Select;
 	ILubyte		*Temp;
-	Color565	*color_0, *color_1;
 	Color8888	colours[4], *col;
 	ILuint		bitmask, Offset;
 	ILubyte		alphas[8], *alphamask;
@@ -1650,21 +1616,11 @@ ILboolean DecompressRXGB()
 				alphas[1] = Temp[1];
 				alphamask = Temp + 2;
 				Temp += 8;
-				color_0 = ((Color565*)Temp);
-				color_1 = ((Color565*)(Temp+2));
+				DxtcReadColors(Temp, colours);
 				bitmask = ((ILuint*)Temp)[1];
+				UInt(&bitmask);
 				Temp += 8;
 
-				colours[0].r = color_0->nRed << 3;
-				colours[0].g = color_0->nGreen << 2;
-				colours[0].b = color_0->nBlue << 3;
-				colours[0].a = 0xFF;
-
-				colours[1].r = color_1->nRed << 3;
-				colours[1].g = color_1->nGreen << 2;
-				colours[1].b = color_1->nBlue << 3;
-				colours[1].a = 0xFF;
-
 				// Four-color block: derive the other two colors.    
 				// 00 = color_0, 01 = color_1, 10 = color_2, 11 = color_3
 				// These 2-bit codes correspond to the 2-bit fields 
@@ -1721,7 +1677,7 @@ ILboolean DecompressRXGB()
 				// Note: Have to separate the next two loops,
 				//	it operates on a 6-byte system.
 				// First three bytes
-				bits = *((ILint*)alphamask);
+				bits = (alphamask[0]) | (alphamask[1] << 8) | (alphamask[2] << 16);
 				for (j = 0; j < 2; j++) {
 					for (i = 0; i < 4; i++) {
 						// only put pixels out < width or height
@@ -1734,7 +1690,7 @@ ILboolean DecompressRXGB()
 				}
 
 				// Last three bytes
-				bits = *((ILint*)&alphamask[3]);
+				bits = (alphamask[3]) | (alphamask[4] << 8) | (alphamask[5] << 16);
 				for (j = 2; j < 4; j++) {
 					for (i = 0; i < 4; i++) {
 						// only put pixels out < width or height
@@ -1903,15 +1859,16 @@ ILboolean DecompressFloat(ILuint lCompFormat)
 }
 
 
-void CorrectPreMult()
+void CorrectPreMult(ILimage *lImage)
 {
-	ILuint i;
+	ILuint i, j, Colour;
 
-	for (i = 0; i < Image->SizeOfData; i += 4) {
-		if (Image->Data[i+3] != 0) {  // Cannot divide by 0.
-			Image->Data[i]   = (ILubyte)(((ILuint)Image->Data[i]   << 8) / Image->Data[i+3]);
-			Image->Data[i+1] = (ILubyte)(((ILuint)Image->Data[i+1] << 8) / Image->Data[i+3]);
-			Image->Data[i+2] = (ILubyte)(((ILuint)Image->Data[i+2] << 8) / Image->Data[i+3]);
+	for (i = 0; i < lImage->SizeOfData; i += 4) {
+		if (lImage->Data[i+3] != 0) {  // Cannot divide by 0.
+			for (j = 0; j < 3; j++) {
+				Colour = ((ILuint)lImage->Data[i+j] * 255 + lImage->Data[i+3] / 2) / lImage->Data[i+3];
+				lImage->Data[i+j] = (ILubyte)IL_MIN(Colour, 255);
+			}
 		}
 	}
 
@@ -1921,19 +1878,48 @@ void CorrectPreMult()
 
 ILboolean DecompressARGBDX10(ILuint CompFormat)
 {
-	//@TODO: Will certainly fail if iCurImage->SizeOfData != "Compressed" Size
-	memcpy(iCurImage->Data, CompData, iCurImage->SizeOfData);
+	if (!CompData || Image->SizeOfData != CompSize) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+	memcpy(Image->Data, CompData, Image->SizeOfData);
 	return IL_TRUE;
 }
 
 
+// Returns the component that the mask selects, brought to 8 bits.
+static ILubyte iGetMasked(ILuint Pixel, ILuint Mask)
+{
+	ILuint	Shift, Bits;
+
+	if (Mask == 0)
+		return 0;
+	for (Shift = 0; !((Mask >> Shift) & 1); Shift++)
+		;
+	for (Bits = 0; Shift + Bits < 32 && ((Mask >> (Shift + Bits)) & 1); Bits++)
+		;
+	Pixel = (Pixel & Mask) >> Shift;
+	return (ILubyte)(Bits > 8 ? Pixel >> (Bits - 8) : Pixel << (8 - Bits));
+}
+
+
+// Same for an alpha component: its highest value has to mean opaque.
+static ILubyte iGetMaskedAlpha(ILuint Pixel, ILuint Mask)
+{
+	ILubyte	Value = iGetMasked(Pixel, Mask);
+	ILuint	Bits = CountBitsFromMask(Mask);
+
+	while (Bits > 0 && Bits < 8) {
+		Value |= Value >> Bits;
+		Bits *= 2;
+	}
+	return Value;
+}
+
+
 ILboolean DecompressARGB(ILuint CompFormat)
 {
-	ILuint ReadI = 0, TempBpp, i;
-	ILuint RedL, RedR;
-	ILuint GreenL, GreenR;
-	ILuint BlueL, BlueR;
-	ILuint AlphaL, AlphaR;
+	ILuint	ReadI, TempBpp, i, j;
 	ILubyte	*Temp;
 
 	if (Has16BitComponents)
@@ -1947,60 +1933,22 @@ ILboolean DecompressARGB(ILuint CompFormat)
 		return IL_TRUE;
 	}
 
-	GetBitsFromMask(Head.RBitMask, &RedL, &RedR);
-	GetBitsFromMask(Head.GBitMask, &GreenL, &GreenR);
-	GetBitsFromMask(Head.BBitMask, &BlueL, &BlueR);
-	GetBitsFromMask(Head.RGBAlphaBitMask, &AlphaL, &AlphaR);
 	Temp = CompData;
 	TempBpp = Head.RGBBitCount / 8;
 
 	for (i = 0; i < Image->SizeOfData; i += Image->Bpp) {
-
-		//@TODO: This is SLOOOW...
-		//but the old version crashed in release build under
-		//winxp (and xp is right to stop this code - I always
-		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
-			if (TempBpp == 3) { //this branch is extra-SLOOOW
-				ReadI =
-					*Temp
-					| ((*(Temp + 1)) << 8)
-					| ((*(Temp + 2)) << 16);
-			}
-			else if (TempBpp == 1)
-				ReadI = *((ILubyte*)Temp);
-			else if (TempBpp == 2)
-				ReadI = Temp[0] | (Temp[1] << 8);
-		}
-		else
-			ReadI = Temp[0] | (Temp[1] << 8) | (Temp[2] << 16) | (Temp[3] << 24);
+		ReadI = 0;
+		for (j = 0; j < TempBpp; j++)
+			ReadI |= (ILuint)Temp[j] << (8 * j);
 		Temp += TempBpp;
 
-		Image->Data[i] = ((ReadI & Head.RBitMask) >> RedR) << RedL;
-
+		Image->Data[i] = iGetMasked(ReadI, Head.RBitMask);
 		if (Image->Bpp >= 3) {
-			Image->Data[i+1] = ((ReadI & Head.GBitMask) >> GreenR) << GreenL;
-			Image->Data[i+2] = ((ReadI & Head.BBitMask) >> BlueR) << BlueL;
-
-			if (Image->Bpp == 4) {
-				Image->Data[i+3] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-				if (AlphaL >= 7) {
-					Image->Data[i+3] = Image->Data[i+3] ? 0xFF : 0x00;
-				}
-				else if (AlphaL >= 4) {
-					Image->Data[i+3] = Image->Data[i+3] | (Image->Data[i+3] >> 4);
-				}
-			}
-		}
-		else if (Image->Bpp == 2) {
-			Image->Data[i+1] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-			if (AlphaL >= 7) {
-				Image->Data[i+1] = Image->Data[i+1] ? 0xFF : 0x00;
-			}
-			else if (AlphaL >= 4) {
-				Image->Data[i+1] = Image->Data[i+1] | (Image->Data[i+3] >> 4);
-			}
+			Image->Data[i+1] = iGetMasked(ReadI, Head.GBitMask);
+			Image->Data[i+2] = iGetMasked(ReadI, Head.BBitMask);
 		}
+		if (Image->Bpp == 4 || Image->Bpp == 2)
+			Image->Data[i + Image->Bpp - 1] = iGetMaskedAlpha(ReadI, Head.RGBAlphaBitMask);
 	}
 
 	return IL_TRUE;
@@ -2008,7 +1956,7 @@ ILboolean DecompressARGB(ILuint CompFormat)
 
 
 // This function simply counts how many contiguous bits are in the mask.
-ILuint CountBitsFromMask(ILuint Mask)
+static ILuint CountBitsFromMask(ILuint Mask)
 {
 	ILuint		i, TestBit = 0x01, Count = 0;
 	ILboolean	FoundBit = IL_FALSE;
@@ -2031,115 +1979,29 @@ ILuint CountBitsFromMask(ILuint Mask)
 //  per channel, such as a2r10g10b10 and a2b10g10r10.
 ILboolean DecompressARGB16(ILuint CompFormat)
 {
-	ILuint ReadI = 0, TempBpp, i;
-	ILuint RedL, RedR;
-	ILuint GreenL, GreenR;
-	ILuint BlueL, BlueR;
-	ILuint AlphaL, AlphaR;
-	ILuint RedPad, GreenPad, BluePad, AlphaPad;
-	ILubyte	*Temp;
+	ILuint		ReadI, i;
+	ILubyte		*Temp;
+	ILushort	*Data;
 
 	if (!CompData)
 		return IL_FALSE;
 
-	GetBitsFromMask(Head.RBitMask, &RedL, &RedR);
-	GetBitsFromMask(Head.GBitMask, &GreenL, &GreenR);
-	GetBitsFromMask(Head.BBitMask, &BlueL, &BlueR);
-	GetBitsFromMask(Head.RGBAlphaBitMask, &AlphaL, &AlphaR);
-	RedPad   = 16 - CountBitsFromMask(Head.RBitMask);
-	GreenPad = 16 - CountBitsFromMask(Head.GBitMask);
-	BluePad  = 16 - CountBitsFromMask(Head.BBitMask);
-	AlphaPad = 16 - CountBitsFromMask(Head.RGBAlphaBitMask);
-
-	RedL = RedL + RedPad;
-	GreenL = GreenL + GreenPad;
-	BlueL = BlueL + BluePad;
-	AlphaL = AlphaL + AlphaPad;
-
 	Temp = CompData;
-	TempBpp = Head.RGBBitCount / 8;
-
-	for (i = 0; i < Image->SizeOfData / 2; i += Image->Bpp) {
-
-		//@TODO: This is SLOOOW...
-		//but the old version crashed in release build under
-		//winxp (and xp is right to stop this code - I always
-		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
-			if (TempBpp == 3) { //this branch is extra-SLOOOW
-				ReadI =
-					*Temp
-					| ((*(Temp + 1)) << 8)
-					| ((*(Temp + 2)) << 16);
-			}
-			else if (TempBpp == 1)
-				ReadI = *((ILubyte*)Temp);
-			else if (TempBpp == 2)
-				ReadI = Temp[0] | (Temp[1] << 8);
-		}
-		else
-			ReadI = Temp[0] | (Temp[1] << 8) | (Temp[2] << 16) | (Temp[3] << 24);
-		Temp += TempBpp;
-
-		((ILushort*)Image->Data)[i+2] = ((ReadI & Head.RBitMask) >> RedR) << RedL;
+	Data = (ILushort*)Image->Data;
+	for (i = 0; i < Image->SizeOfData / 2; i += 4, Temp += 4) {
+		ReadI = Temp[0] | (Temp[1] << 8) | (Temp[2] << 16) | ((ILuint)Temp[3] << 24);
 
-		if (Image->Bpp >= 3) {
-			((ILushort*)Image->Data)[i+1] = ((ReadI & Head.GBitMask) >> GreenR) << GreenL;
-			((ILushort*)Image->Data)[i] = ((ReadI & Head.BBitMask) >> BlueR) << BlueL;
-
-			if (Image->Bpp == 4) {
-				((ILushort*)Image->Data)[i+3] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-				if (AlphaL >= 7) {
-					((ILushort*)Image->Data)[i+3] = ((ILushort*)Image->Data)[i+3] ? 0xFF : 0x00;
-				}
-				else if (AlphaL >= 4) {
-					((ILushort*)Image->Data)[i+3] = ((ILushort*)Image->Data)[i+3] | (((ILushort*)Image->Data)[i+3] >> 4);
-				}
-			}
-		}
-		else if (Image->Bpp == 2) {
-			((ILushort*)Image->Data)[i+1] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-			if (AlphaL >= 7) {
-				((ILushort*)Image->Data)[i+1] = ((ILushort*)Image->Data)[i+1] ? 0xFF : 0x00;
-			}
-			else if (AlphaL >= 4) {
-				((ILushort*)Image->Data)[i+1] = ((ILushort*)Image->Data)[i+1] | (Image->Data[i+3] >> 4);
-			}
-		}
+		// The masks of these formats are generally written with red and blue exchanged.
+		Data[i+2] = (ILushort)((Head.RBitMask == 0x3FF00000 ? ReadI >> 20 : ReadI) & 0x3FF) << 6;
+		Data[i+1] = (ILushort)((ReadI >> 10) & 0x3FF) << 6;
+		Data[i]   = (ILushort)((Head.BBitMask == 0x3FF00000 ? ReadI >> 20 : ReadI) & 0x3FF) << 6;
+		Data[i+3] = (ILushort)((ReadI >> 30) * 0x5555);
 	}
 
 	return IL_TRUE;
 }
 
 
-// @TODO:  Look at using the BSF/BSR operands for inline ASM here.
-void GetBitsFromMask(ILuint Mask, ILuint *ShiftLeft, ILuint *ShiftRight)
-{
-	ILuint Temp, i;
-
-	if (Mask == 0) {
-		*ShiftLeft = *ShiftRight = 0;
-		return;
-	}
-
-	Temp = Mask;
-	for (i = 0; i < 32; i++, Temp >>= 1) {
-		if (Temp & 1)
-			break;
-	}
-	*ShiftRight = i;
-
-	// Temp is preserved, so use it again:
-	for (i = 0; i < 8; i++, Temp >>= 1) {
-		if (!(Temp & 1))
-			break;
-	}
-	*ShiftLeft = 8 - i;
-
-	return;
-}
-
-
 //
 //
 // DXT extension code
@@ -2170,6 +2032,7 @@ void ilFreeImageDxtcData()
 	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
 	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
 	ILint MipCount;
+	ILimage *CurImage = iCurImage;
 
 	for(i = 0; i <= ImgCount; ++i) {
 		ilBindImage(ImgID);
@@ -2184,6 +2047,8 @@ void ilFreeImageDxtcData()
 			ilFreeSurfaceDxtcData();
 		}
 	}
+
+	iCurImage = CurImage;
 }
 
 /*
@@ -2191,7 +2056,9 @@ void ilFreeImageDxtcData()
  */
 ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 {
-	ILuint CompFormat;
+	ILuint	CompFormat;
+	ILubyte	*Data;
+	size_t	Size;
 
 	if (iCurImage == NULL || iCurImage->DxtcData == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -2204,39 +2071,43 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 		return IL_FALSE;
 	}
 
+	switch(iCurImage->DxtcFormat)
+	{
+		case IL_DXT1: CompFormat = PF_DXT1; break;
+		case IL_DXT3: CompFormat = PF_DXT3; break;
+		default:      CompFormat = PF_DXT5; break;
+	}
+
 	//@TODO: is this right for all dxt formats? works for
 	//  DXT1, 3, 5
+	Size = (size_t)iCurImage->Width * iCurImage->Height * iCurImage->Depth * 4;
+	Data = (ILubyte*)ialloc(Size);
+	if (Data == NULL)
+		return IL_FALSE;
+
+	if (iCurImage->Data != NULL)
+		ifree(iCurImage->Data);
+	iCurImage->Data = Data;
+	iCurImage->SizeOfData = (ILuint)Size;
 	iCurImage->Bpp = 4;
 	iCurImage->Bpc = 1;
 	iCurImage->Bps = iCurImage->Width*iCurImage->Bpp*iCurImage->Bpc;
 	iCurImage->SizeOfPlane = iCurImage->Height*iCurImage->Bps;
 	iCurImage->Format = IL_RGBA;
 	iCurImage->Type = IL_UNSIGNED_BYTE;
-
-	if (iCurImage->SizeOfData != iCurImage->SizeOfPlane*iCurImage->Depth) {
-		iCurImage->SizeOfData = iCurImage->Depth*iCurImage->SizeOfPlane;
-		if (iCurImage->Data != NULL)
-			ifree(iCurImage->Data);
-		iCurImage->Data = NULL;
-	}
-
-	if (iCurImage->Data == NULL) {
-		iCurImage->Data = (ILubyte*)ialloc(iCurImage->SizeOfData);
-	}
+	if (iCurImage->Pal.Palette != NULL)
+		ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = NULL;
+	iCurImage->Pal.PalSize = 0;
+	iCurImage->Pal.PalType = IL_PAL_NONE;
 
 	Image = iCurImage;
 	Width = iCurImage->Width;
 	Height = iCurImage->Height;
 	Depth = iCurImage->Depth;
-	switch(iCurImage->DxtcFormat)
-	{
-		case IL_DXT1: CompFormat = PF_DXT1; break;
-		case IL_DXT3: CompFormat = PF_DXT3; break;
-		case IL_DXT5: CompFormat = PF_DXT5; break;
-	}
 	CompData = iCurImage->DxtcData;
 	DdsDecompress(CompFormat, IL_FALSE); //@TODO: globals suck...fix this
-	//@TODO: Should we ever expect this to be IL_TRUE?
+	CompData = NULL;  // Belongs to the image.
 
 	//@TODO: origin should be set in Decompress()...
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -2250,6 +2121,7 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToImage()
 	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
 	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
 	ILint MipCount;
+	ILimage *CurImage = iCurImage;
 	ILboolean ret = IL_TRUE;
 
 	for(i = 0; i <= ImgCount; ++i) {
@@ -2266,7 +2138,7 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToImage()
 				ret = IL_FALSE;
 		}
 	}
-    ilBindImage(ImgID);
+	iCurImage = CurImage;
 
 	return ret;
 }
@@ -2274,21 +2146,34 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToImage()
 
 ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 {
-	ILuint Size;
-	ILubyte* Data;
-	ilFreeSurfaceDxtcData();
+	ILuint		Size;
+	ILubyte*	Data;
+	ILubyte*	OldData;
 
-	Size = ilGetDXTCData(NULL, 0, Format);
-	if (Size == 0) {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Data = (ILubyte*)ialloc(Size);
-    
-	if (Data == NULL)
+	// The pixels have to be compressed, not copied from data that was kept before.
+	OldData = iCurImage->DxtcData;
+	iCurImage->DxtcData = NULL;
+
+	Data = NULL;
+	Size = ilGetDXTCData(NULL, 0, Format);
+	if (Size != 0)
+		Data = (ILubyte*)ialloc(Size);
+	if (Data != NULL && ilGetDXTCData((void*)Data, Size, Format) != Size) {
+		ifree(Data);
+		Data = NULL;
+	}
+	if (Data == NULL) {
+		iCurImage->DxtcData = OldData;
 		return IL_FALSE;
-            
-	ilGetDXTCData((void*)Data, Size, Format);
+	}
+
+	if (OldData != NULL)
+		ifree(OldData);
 
 	//These have to be after the call to ilGetDXTCData()
 	iCurImage->DxtcData = Data;
@@ -2305,6 +2190,7 @@ ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
 	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
 	ILint MipCount;
+	ILimage *CurImage = iCurImage;
 	ILboolean ret = IL_TRUE;
 
 	for (i = 0; i <= ImgCount; ++i) {
@@ -2322,6 +2208,8 @@ ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 		}
 	}
 
+	iCurImage = CurImage;
+
 	return ret;
 }
 
@@ -2331,70 +2219,71 @@ ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 //functions as well, but for now this is sufficient)
 ILAPI ILboolean ILAPIENTRY ilTexImageDxtc(ILint w, ILint h, ILint d, ILenum DxtFormat, const ILubyte* data)
 {
-	ILimage* Image = iCurImage;
-
-	ILint xBlocks, yBlocks, BlockSize, LineSize, DataSize;
+	ILimage*	Image = iCurImage;
+	ILubyte*	DxtcData;
+	size_t		xBlocks, yBlocks, BlockSize;
+	double		DataSize;
 
-
-	//The next few lines are copied from ilTexImage() and ilInitImage() -
-	//should be factored in more reusable functions...
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	////
-
-	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
-		ifree(Image->Pal.Palette);
+	switch (DxtFormat)
+	{
+		case IL_DXT1:
+		case IL_DXT1A:
+		case IL_ATI1N:
+			BlockSize = 8;
+			break;
+		case IL_DXT2:
+		case IL_DXT3:
+		case IL_DXT4:
+		case IL_DXT5:
+		case IL_3DC:
+		case IL_RXGB:
+			BlockSize = 16;
+			break;
+		default:
+			ilSetError(IL_INVALID_PARAM);
+			return IL_FALSE;
 	}
 
-	// These are set NULL later by the memset call.
-	ilCloseImage(Image->Mipmaps);
-	ilCloseImage(Image->Next);
-	ilCloseImage(Image->Faces);
-	ilCloseImage(Image->Layers);
-
-	if (Image->AnimList) ifree(Image->AnimList);
-	if (Image->Profile)  ifree(Image->Profile);
-	if (Image->DxtcData) ifree(Image->DxtcData);
-	if (Image->Data)	 ifree(Image->Data);
-
-
-	////
-
-	memset(Image, 0, sizeof(ILimage));
-	Image->Width	   = w;
-	Image->Height	   = h;
-	Image->Depth	   = d;
-
-	//TODO: What about origin with dxtc data?
-	Image->Origin	   = IL_ORIGIN_LOWER_LEFT;
-	Image->Pal.PalType = IL_PAL_NONE;
+	if (w <= 0 || h <= 0 || d <= 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
 
     // Allocate DXT data buffer
-	xBlocks = (w + 3)/4;
-	yBlocks = (h + 3)/4;
-	if (DxtFormat == IL_DXT1)
-		BlockSize = 8;
+	xBlocks = ((size_t)w + 3)/4;
+	yBlocks = ((size_t)h + 3)/4;
+	DataSize = (double)xBlocks * yBlocks * d * BlockSize;
+	if (DataSize > 0x7FFFFFFF) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	DxtcData = (ILubyte*)ialloc((size_t)DataSize);
+	if (DxtcData == NULL)
+		return IL_FALSE;
+	if (data != NULL)
+		memcpy(DxtcData, data, (size_t)DataSize);
 	else
-		BlockSize = 16;
-
-	LineSize = xBlocks * BlockSize;
-
-	DataSize = yBlocks * LineSize * d;
+		memset(DxtcData, 0, (size_t)DataSize);
 
-	Image->DxtcFormat  = DxtFormat;
-    Image->DxtcSize = DataSize;
-	Image->DxtcData    = (ILubyte*)ialloc(DataSize);
-
-	if (Image->DxtcData == NULL) {
+	// The image stays black until ilDxtcDataToSurface or ilDxtcDataToImage makes its pixels
+	//  from the compressed data.
+	if (!ilTexImage(w, h, d, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+		ifree(DxtcData);
 		return IL_FALSE;
 	}
+	memset(Image->Data, 0, Image->SizeOfData);
 
-	if (data != NULL)
-		memcpy(Image->DxtcData, data, DataSize);
+	//TODO: What about origin with dxtc data?
+	Image->Origin	   = IL_ORIGIN_LOWER_LEFT;
+
+	Image->DxtcFormat  = DxtFormat;
+	Image->DxtcSize    = (ILuint)DataSize;
+	Image->DxtcData    = DxtcData;
 
 	return IL_TRUE;
 }
@@ -2744,9 +2633,9 @@ ILboolean DecompressDXT1(ILimage *lImage, ILubyte *lCompData)
 					colours[2].r = (colours[0].r + colours[1].r) / 2;
 					//colours[2].a = 0xFF;
 
-					colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
-					colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
-					colours[3].r = (colours[0].r + 2 * colours[1].r + 1) / 3;
+					colours[3].b = 0x00;
+					colours[3].g = 0x00;
+					colours[3].r = 0x00;
 					colours[3].a = 0x00;
 				}
 
-- 
2.43.0


From ece3b6564eb1ba2d4e3463909a42f933ab2bf86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 087/161] fix: DXT compression used the wrong image, read past
 ragged blocks and reported wrong sizes

---
 DevIL/src-IL/src/il_dds-save.cpp | 303 +++++++++++++++++--------------
 DevIL/src-IL/src/il_squish.cpp   |   2 +-
 2 files changed, 169 insertions(+), 136 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index f17862f..e9e75df 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -71,64 +71,42 @@ ILuint ilSaveDdsL(void *Lump, ILuint Size)
 
 
 //! Checks if an image is a cubemap
-ILuint GetCubemapInfo(ILimage* image, ILint* faces)
+ILuint GetCubemapInfo(ILimage* image, ILimage** faces)
 {
-	ILint	indices[] = { -1, -1, -1,  -1, -1, -1 }, i;
+	ILuint	i, j, ret = 0, srcMipmapCount, srcFacesCount, mipmapCount;
 	ILimage	*img;
-	ILuint	ret = 0, srcMipmapCount, srcImagesCount, mipmapCount;
 
 	if (image == NULL)
 		return 0;
 
-	iGetIntegervImage(image, IL_NUM_IMAGES, (ILint*) &srcImagesCount);
-	if (srcImagesCount != 5) //write only complete cubemaps (TODO?)
+	iGetIntegervImage(image, IL_NUM_FACES, (ILint*) &srcFacesCount);
+	if (srcFacesCount != CUBEMAP_SIDES - 1) //write only complete cubemaps (TODO?)
 		return 0;
 
-	img = image;
-	iGetIntegervImage(image, IL_NUM_MIPMAPS, (ILint*) &srcMipmapCount);
-	mipmapCount = srcMipmapCount;
+	iGetIntegervImage(image, IL_NUM_MIPMAPS, (ILint*) &mipmapCount);
 
-	for (i = 0; i < 6; ++i) {
-		switch (img->CubeFlags)
-		{
-			case DDS_CUBEMAP_POSITIVEX:
-				indices[i] = 0;
-				break;
-			case DDS_CUBEMAP_NEGATIVEX:
-				indices[i] = 1;
-				break;
-			case DDS_CUBEMAP_POSITIVEY:
-				indices[i] = 2;
-				break;
-			case DDS_CUBEMAP_NEGATIVEY:
-				indices[i] = 3;
-				break;
-			case DDS_CUBEMAP_POSITIVEZ:
-				indices[i] = 4;
-				break;
-			case DDS_CUBEMAP_NEGATIVEZ:
-				indices[i] = 5;
-				break;
-		}
-        iGetIntegervImage(img, IL_NUM_MIPMAPS, (ILint*) &srcMipmapCount);
+	for (i = 0; i < CUBEMAP_SIDES; ++i)
+		faces[i] = NULL;
+
+	for (img = image; img != NULL; img = img->Faces) {
+		iGetIntegervImage(img, IL_NUM_MIPMAPS, (ILint*) &srcMipmapCount);
 		if (srcMipmapCount != mipmapCount)
 			return 0; //equal # of mipmaps required
+		if (img->Width != image->Width || img->Height != image->Height || img->Depth != image->Depth)
+			return 0; //all faces share one header
 
-		ret |= img->CubeFlags;
-		img = img->Next;
+		for (j = 0; j < CUBEMAP_SIDES; ++j)
+			if (img->CubeFlags == CubemapDirections[j])
+				faces[j] = img;
 	}
 
-	for (i = 0; i < 6; ++i)
-		if (indices[i] == -1)
+	for (i = 0; i < CUBEMAP_SIDES; ++i) {
+		if (faces[i] == NULL)
 			return 0; //one face not found
+		ret |= CubemapDirections[i];
+	}
 
-	if (ret != 0) //should always be true
-		ret |= DDS_CUBEMAP;
-
-	for (i = 0; i < 6; ++i)
-		faces[indices[i]] = i;
-
-	return ret;
+	return ret | DDS_CUBEMAP;
 }
 
 
@@ -136,48 +114,53 @@ ILuint GetCubemapInfo(ILimage* image, ILint* faces)
 ILboolean iSaveDdsInternal()
 {
 	ILenum	DXTCFormat;
-	ILuint	counter, numMipMaps, image, numFaces, i;
+	ILuint	numFaces, i;
+	ILimage	*Faces[CUBEMAP_SIDES], *Mip, *CurImage = iCurImage;
 	ILubyte	*CurData = NULL;
-	ILint	CubeTable[6] = { 0 };
-	ILuint	CubeFlags;
+	ILuint	CubeFlags, Done;
 
-	CubeFlags = GetCubemapInfo(iCurImage, CubeTable);
+	CubeFlags = GetCubemapInfo(iCurImage, Faces);
 
-	image = ilGetInteger(IL_CUR_IMAGE);
 	DXTCFormat = iGetInt(IL_DXTC_FORMAT);
-	WriteHeader(iCurImage, DXTCFormat, CubeFlags);
-
-	if (CubeFlags != 0)
-		numFaces = ilGetInteger(IL_NUM_FACES); // Should always be 5 for now
-	else
-		numFaces = 0;
-
-	numMipMaps = ilGetInteger(IL_NUM_MIPMAPS); //this assumes all faces have same # of mipmaps
+	// @TODO:  Fix the pre-multiplied alpha problem.
+	if (DXTCFormat == IL_DXT2)
+		DXTCFormat = IL_DXT3;
+	else if (DXTCFormat == IL_DXT4)
+		DXTCFormat = IL_DXT5;
+	if (!WriteHeader(iCurImage, DXTCFormat, CubeFlags))
+		return IL_FALSE;
 
-	for (i = 0; i <= numFaces; ++i) {
-		for (counter = 0; counter <= numMipMaps; counter++) {
-			ilBindImage(image);
-			ilActiveImage(CubeTable[i]);
-			ilActiveMipmap(counter);
+	if (CubeFlags != 0) {
+		numFaces = CUBEMAP_SIDES;
+	}
+	else {
+		numFaces = 1;
+		Faces[0] = iCurImage;
+	}
 
-			if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-				CurData = iCurImage->Data;
-				iCurImage->Data = iGetFlipped(iCurImage);
-				if (iCurImage->Data == NULL) {
-					iCurImage->Data = CurData;
+	for (i = 0; i < numFaces; ++i) {
+		for (Mip = Faces[i]; Mip != NULL; Mip = Mip->Mipmaps) {
+			if (Mip->Origin != IL_ORIGIN_UPPER_LEFT) {
+				CurData = Mip->Data;
+				Mip->Data = iGetFlipped(Mip);
+				if (Mip->Data == NULL) {
+					Mip->Data = CurData;
 					return IL_FALSE;
 				}
 			}
 
-			if (!Compress(iCurImage, DXTCFormat))
-				return IL_FALSE;
+			iCurImage = Mip;
+			Done = Compress(Mip, DXTCFormat);
+			iCurImage = CurImage;
 
-			if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-				ifree(iCurImage->Data);
-				iCurImage->Data = CurData;
+			if (Mip->Origin != IL_ORIGIN_UPPER_LEFT) {
+				ifree(Mip->Data);
+				Mip->Data = CurData;
 			}
-		}
 
+			if (!Done)
+				return IL_FALSE;
+		}
 	}
 
 	return IL_TRUE;
@@ -313,32 +296,45 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 {
 	ILubyte	*CurData = NULL;
 	ILuint	retVal;
-	ILint	BlockNum;
+	ILuint	BlockNum, Size;
 
-	if (Buffer == NULL) {  // Return the number that will be written with a subsequent call.
-		BlockNum = ((iCurImage->Width + 3)/4) * ((iCurImage->Height + 3)/4)
-					* iCurImage->Depth;
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
 
-		switch (DXTCFormat)
-		{
-			case IL_DXT1:
-			case IL_DXT1A:
-			case IL_ATI1N:
-				return BlockNum * 8;
-			case IL_DXT3:
-			case IL_DXT5:
-			case IL_3DC:
-			case IL_RXGB:
-				return BlockNum * 16;
-			default:
-				ilSetError(IL_FORMAT_NOT_SUPPORTED);
-				return 0;
-		}
+	BlockNum = ((iCurImage->Width + 3)/4) * ((iCurImage->Height + 3)/4)
+				* iCurImage->Depth;
+
+	switch (DXTCFormat)
+	{
+		case IL_DXT1:
+		case IL_DXT1A:
+		case IL_ATI1N:
+			Size = BlockNum * 8;
+			break;
+		case IL_DXT3:
+		case IL_DXT5:
+		case IL_3DC:
+		case IL_RXGB:
+			Size = BlockNum * 16;
+			break;
+		default:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
+			return 0;
+	}
+
+	if (Buffer == NULL)  // Return the number that will be written with a subsequent call.
+		return Size;
+
+	if (BufferSize < Size) {
+		ilSetError(IL_INVALID_PARAM);
+		return 0;
 	}
 
-	if (DXTCFormat == iCurImage->DxtcFormat && iCurImage->DxtcSize && iCurImage->DxtcData) {
-		memcpy(Buffer, iCurImage->DxtcData, IL_MIN(BufferSize, iCurImage->DxtcSize));
-		return IL_MIN(BufferSize, iCurImage->DxtcSize);
+	if (DXTCFormat == iCurImage->DxtcFormat && iCurImage->DxtcSize == Size && iCurImage->DxtcData) {
+		memcpy(Buffer, iCurImage->DxtcData, Size);
+		return Size;
 	}
 
 	if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
@@ -351,7 +347,7 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 	}
 
 	//@TODO: Is this the best way to do this?
-	iSetOutputLump(Buffer, BufferSize);
+	iSetOutputLump(Buffer, Size);
 	retVal = Compress(iCurImage, DXTCFormat);
 
 	if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
@@ -386,7 +382,7 @@ ILushort *CompressTo565(ILimage *Image)
 	ILuint		i, j;
 
 	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
-		TempImage = iConvertImage(iCurImage, IL_BGRA, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
+		TempImage = iConvertImage(Image, IL_BGRA, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return NULL;
 	}
@@ -394,7 +390,7 @@ ILushort *CompressTo565(ILimage *Image)
 		TempImage = Image;
 	}
 
-	Data = (ILushort*)ialloc(iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+	Data = (ILushort*)ialloc(Image->Width * Image->Height * 2 * Image->Depth);
 	if (Data == NULL) {
 		if (TempImage != Image)
 			ilCloseImage(TempImage);
@@ -461,7 +457,7 @@ ILushort *CompressTo565(ILimage *Image)
 			break;
 
 		case IL_ALPHA:
-			memset(Data, 0, iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+			memset(Data, 0, Image->Width * Image->Height * 2 * Image->Depth);
 			break;
 	}
 
@@ -479,7 +475,7 @@ ILubyte *CompressTo88(ILimage *Image)
 	ILuint		i, j;
 
 	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
-		TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
+		TempImage = iConvertImage(Image, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return NULL;
 	}
@@ -487,7 +483,7 @@ ILubyte *CompressTo88(ILimage *Image)
 		TempImage = Image;
 	}
 
-	Data = (ILubyte*)ialloc(iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+	Data = (ILubyte*)ialloc(Image->Width * Image->Height * 2 * Image->Depth);
 	if (Data == NULL) {
 		if (TempImage != Image)
 			ilCloseImage(TempImage);
@@ -550,7 +546,7 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 	*r = NULL;
 
 	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
-		TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
+		TempImage = iConvertImage(Image, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return;
 	}
@@ -558,8 +554,8 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 		TempImage = Image;
 	}
 
-	*xgb = (ILushort*)ialloc(iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
-	*r = (ILubyte*)ialloc(iCurImage->Width * iCurImage->Height * iCurImage->Depth);
+	*xgb = (ILushort*)ialloc(Image->Width * Image->Height * 2 * Image->Depth);
+	*r = (ILubyte*)ialloc(Image->Width * Image->Height * Image->Depth);
 	if (*xgb == NULL || *r == NULL) {
 		if (TempImage != Image)
 			ilCloseImage(TempImage);
@@ -626,7 +622,23 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 }
 
 
-ILuint Compress(ILimage *Image, ILenum DXTCFormat)
+// Returns a copy of the alpha channel of an RGBA image.
+static ILubyte *iCopyAlpha(ILimage *Image)
+{
+	ILubyte	*Alpha;
+	ILuint	i;
+
+	Alpha = (ILubyte*)ialloc(Image->SizeOfData / 4);
+	if (Alpha != NULL) {
+		for (i = 0; i < Image->SizeOfData / 4; i++)
+			Alpha[i] = Image->Data[i*4 + 3];
+	}
+	return Alpha;
+}
+
+
+// Compresses an image that is in the form that Compress prepares.
+static ILuint iCompressPrepared(ILimage *Image, ILenum DXTCFormat)
 {
 	ILushort	*Data, Block[16], ex0, ex1, *Runner16, t0, t1;
 	ILuint		x, y, z, i, BitMask, DXTCSize;//, Rms1, Rms2;
@@ -669,18 +681,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 
 	else if (DXTCFormat == IL_ATI1N)
 	{
-		ILimage *TempImage;
-
-		if (Image->Bpp != 1) {
-			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
-			if (TempImage == NULL)
-				return 0;
-		}
-		else {
-			TempImage = Image;
-		}
-
-		Runner8 = TempImage->Data;
+		Runner8 = Image->Data;
 
 		for (z = 0; z < Image->Depth; z++) {
 			for (y = 0; y < Image->Height; y += 4) {
@@ -696,9 +697,6 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 			}
 			Runner8 += Image->Width * Image->Height;
 		}
-
-		if (TempImage != Image)
-			ilCloseImage(TempImage);
 	}
 	else
 	{
@@ -742,8 +740,11 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 
 				// Get compressed data here.
 				BlockData = ilSquishCompressDXT(ByteData, Image->Width, Image->Height, 1, DXTCFormat, &DXTCSize);
-				if (BlockData == NULL)
+				if (BlockData == NULL) {
+					if (ByteData != Image->Data)
+						ifree(ByteData);
 					return 0;
+				}
 
 				if (iwrite(BlockData, 1, DXTCSize) != DXTCSize) {
 					if (ByteData != Image->Data)
@@ -756,7 +757,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 					ifree(ByteData);
 				ifree(BlockData);
 
-				return Image->Width * Image->Height * 4;  // Either compresses all or none.
+				return DXTCSize;  // Either compresses all or none.
 			}
 		}
 #endif//IL_USE_DXTC_SQUISH
@@ -766,7 +767,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 			if (Data == NULL)
 				return 0;
 
-			Alpha = ilGetAlpha(IL_UNSIGNED_BYTE);
+			Alpha = iCopyAlpha(Image);
 			if (Alpha == NULL) {
 				ifree(Data);
 				return 0;
@@ -915,6 +916,27 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 }
 
 
+ILuint Compress(ILimage *Image, ILenum DXTCFormat)
+{
+	ILimage	*TempImage = Image;
+	ILenum	Format = (DXTCFormat == IL_ATI1N) ? IL_LUMINANCE : IL_RGBA;
+	ILuint	Count;
+
+	if (Image->Format != Format || Image->Type != IL_UNSIGNED_BYTE) {
+		TempImage = iConvertImage(Image, Format, IL_UNSIGNED_BYTE);
+		if (TempImage == NULL)
+			return 0;
+	}
+
+	Count = iCompressPrepared(TempImage, DXTCFormat);
+
+	if (TempImage != Image)
+		ilCloseImage(TempImage);
+
+	return Count;
+}
+
+
 // Assumed to be 16-bit (5:6:5).
 ILboolean GetBlock(ILushort *Block, ILushort *Data, ILimage *Image, ILuint XPos, ILuint YPos)
 {
@@ -965,12 +987,14 @@ ILboolean Get3DcBlock(ILubyte *Block, ILubyte *Data, ILimage *Image, ILuint XPos
 
 	for (y = 0; y < 4; y++) {
 		for (x = 0; x < 4; x++) {
-			if (x < Image->Width && y < Image->Height)
+			if (XPos + x < Image->Width && YPos + y < Image->Height)
                 Block[i++] = Data[Offset + 2*x];
             else
                 Block[i++] = Data[Offset];
 		}
-        Offset += 2*Image->Width;
+		// We do not want to read past the end of the image.
+		if (YPos + y + 1 < Image->Height)
+			Offset += 2*Image->Width;
 	}
 
 	return IL_TRUE;
@@ -1173,6 +1197,14 @@ void ChooseEndpoints(ILushort *Block, ILushort *ex0, ILushort *ex1)
 		if (NormSquared(&Colours[i]) > NormSquared(&Colours[Highest]))
  			Highest = i;
 	}
+	// Colours of the same norm can still be different ones.
+	if (NormSquared(&Colours[Lowest]) == NormSquared(&Colours[Highest])) {
+		for (i = 0; i < 16; i++) {
+			if (Distance(&Colours[i], &Colours[Highest]) > Distance(&Colours[Lowest], &Colours[Highest]))
+				Lowest = i;
+		}
+	}
+
 	*ex0 = Block[Highest];
 	*ex1 = Block[Lowest];
 }
@@ -1278,36 +1310,37 @@ ILAPI ILubyte* ILAPIENTRY ilCompressDXT(ILubyte *Data, ILuint Width, ILuint Heig
 #endif//IL_USE_DXTC_SQUISH
 
 	TempImage = (ILimage*)ialloc(sizeof(ILimage));
+	if (TempImage == NULL)
+		return NULL;
 	memset(TempImage, 0, sizeof(ILimage));
 	TempImage->Width = Width;
 	TempImage->Height = Height;
 	TempImage->Depth = Depth;
-	TempImage->Bpp = 4;  // RGBA or BGRA
-	TempImage->Format = IL_BGRA;
+	TempImage->Bpp = 4;
+	TempImage->Format = IL_RGBA;  // As for the libraries above.
 	TempImage->Bpc = 1;  // Unsigned bytes only
 	TempImage->Type = IL_UNSIGNED_BYTE;
+	TempImage->Bps = Width * TempImage->Bpp;
 	TempImage->SizeOfPlane = TempImage->Bps * Height;
 	TempImage->SizeOfData  = TempImage->SizeOfPlane * Depth;
 	TempImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	TempImage->DxtcFormat = IL_DXT_NO_COMP;
 	TempImage->Data = Data;
 
+	iCurImage = TempImage;
+	Buffer = NULL;
 	BuffSize = ilGetDXTCData(NULL, 0, DXTCFormat);
-	if (BuffSize == 0)
-		return NULL;
-	Buffer = (ILubyte*)ialloc(BuffSize);
-	if (Buffer == NULL)
-		return NULL;
-
-	if (ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
+	if (BuffSize != 0)
+		Buffer = (ILubyte*)ialloc(BuffSize);
+	if (Buffer != NULL && ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
 		ifree(Buffer);
-		return NULL;
+		Buffer = NULL;
 	}
 	*DXTCSize = BuffSize;
 
 	// Restore backup of iCurImage.
 	iCurImage = CurImage;
-	TempImage->Data = NULL;
-	ilCloseImage(TempImage);
+	ifree(TempImage);
 
 	return Buffer;
 }
diff --git a/DevIL/src-IL/src/il_squish.cpp b/DevIL/src-IL/src/il_squish.cpp
index 20819d5..a5e7f01 100755
--- a/DevIL/src-IL/src/il_squish.cpp
+++ b/DevIL/src-IL/src/il_squish.cpp
@@ -65,7 +65,7 @@ ILAPI ILubyte* ILAPIENTRY ilSquishCompressDXT(ILubyte *Data, ILuint Width, ILuin
 			break;
 		default:  // Does not support DXT2 or DXT4.
 			ilSetError(IL_INVALID_PARAM);
-			break;
+			return NULL;
 	}
 
 	Size = squish::GetStorageRequirements(Width, Height, Flags);
-- 
2.43.0


From ddfbea92ad7bf155f42e2c69e0bba04fbc90ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 088/161] fix: a save whose seeks or final flush fail is
 reported as successful

---
 DevIL/src-IL/src/il_files.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 27929b1..15b7203 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -240,9 +240,13 @@ ILHANDLE ILAPIENTRY iDefaultOpenW(ILconst_string FileName)
 }
 
 
+static void iNoteWriteError(void);
+
 void ILAPIENTRY iDefaultCloseW(ILHANDLE Handle)
 {
-	fclose((FILE*)Handle);
+	// What was written may only now reach the device.
+	if (fclose((FILE*)Handle) != 0)
+		iNoteWriteError();
 	return;
 }
 
@@ -780,7 +784,10 @@ ILint ILAPIENTRY iSeekWFile(ILint Offset, ILuint Mode)
 {
 	if (Mode == IL_SEEK_SET)
 		Offset += WriteFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
-	return SeekWProc(FileWrite, Offset, Mode);
+	ILint Ret = SeekWProc(FileWrite, Offset, Mode);
+	if (Ret != 0)
+		iNoteWriteError();
+	return Ret;
 }
 
 
-- 
2.43.0


From beb37cc4a56a3f4e3919fcd8790a7c044d15fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 089/161] fix: load policies reach only the first images, lose
 palette alpha, and failed loads ignore IL_DEFAULT_ON_FAIL

---
 DevIL/src-IL/include/il_internal.h |   1 +
 DevIL/src-IL/src/il_convert.cpp    | 164 ++++++++++-------------------
 DevIL/src-IL/src/il_dds.cpp        |  14 +--
 DevIL/src-IL/src/il_io.cpp         | 119 +++++++++++++--------
 DevIL/src-IL/src/il_rawdata.cpp    |  34 +++---
 5 files changed, 155 insertions(+), 177 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 9c6d050..a8f6e24 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -207,6 +207,7 @@ ILboolean	ilAddAlphaKey(ILimage *Image);
 ILboolean	iFastConvert(ILenum DestFormat);
 ILboolean	ilFixCur(void);
 ILboolean	ilFixImage(void);
+ILboolean	iFinishLoad(ILimage *Image, ILboolean Loaded);
 ILboolean	ilRemoveAlpha(void);
 ILboolean	ilSwapColours(void);
 // Palette functions
diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 961aa1e..061050d 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -1011,8 +1011,11 @@ ILboolean ilRemoveAlpha()
 }
 
 
+// Brings the current image into the form that the states ask for.
 ILboolean ilFixCur()
 {
+	ILenum Format = iCurImage->Format, Type = iCurImage->Type;
+
 	if (ilIsEnabled(IL_ORIGIN_SET)) {
 		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
 			if (!ilFlipImage()) {
@@ -1021,133 +1024,74 @@ ILboolean ilFixCur()
 		}
 	}
 
-	if (ilIsEnabled(IL_TYPE_SET)) {
-		if ((ILenum)ilGetInteger(IL_TYPE_MODE) != iCurImage->Type) {
-			if (!ilConvertImage(iCurImage->Format, ilGetInteger(IL_TYPE_MODE))) {
-				return IL_FALSE;
-			}
-		}
-	}
-	if (ilIsEnabled(IL_FORMAT_SET)) {
-		if ((ILenum)ilGetInteger(IL_FORMAT_MODE) != iCurImage->Format) {
-			if (!ilConvertImage(ilGetInteger(IL_FORMAT_MODE), iCurImage->Type)) {
-				return IL_FALSE;
-			}
-		}
-	}
+	if (ilIsEnabled(IL_TYPE_SET))
+		Type = ilGetInteger(IL_TYPE_MODE);
+	if (ilIsEnabled(IL_FORMAT_SET))
+		Format = ilGetInteger(IL_FORMAT_MODE);
 
-	if (iCurImage->Format == IL_COLOUR_INDEX) {
-		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
-			if (!ilConvertImage(IL_BGR, IL_UNSIGNED_BYTE)) {
-				return IL_FALSE;
-			}
-		}
+	// There are no palette indices of other types than bytes.
+	if (Format == IL_COLOUR_INDEX && (ilGetBoolean(IL_CONV_PAL) == IL_TRUE ||
+		(Type != iCurImage->Type && Type != IL_UNSIGNED_BYTE && Type != IL_BYTE))) {
+		if (iCurImage->Pal.PalType == IL_PAL_RGBA32 || iCurImage->Pal.PalType == IL_PAL_BGRA32)
+			Format = IL_BGRA;
+		else
+			Format = IL_BGR;
 	}
-/*	Swap Colors on Big Endian !!!!!
-#ifdef __BIG_ENDIAN__
-	// Swap endian
-	EndianSwapData(iCurImage);
-#endif 
-*/
-	return IL_TRUE;
-}
 
-/*
-ILboolean ilFixImage()
-{
-	ILuint NumImages, i;
-
-	NumImages = ilGetInteger(IL_NUM_IMAGES);
-	for (i = 0; i < NumImages; i++) {
-		ilBindImage(ilGetCurName());  // Set to parent image first.
-		if (!ilActiveImage(i+1))
-			return IL_FALSE;
-		if (!ilFixCur())
-			return IL_FALSE;
-	}
+	if (Format == iCurImage->Format && Type == iCurImage->Type)
+		return IL_TRUE;
+	return ilConvertImage(Format, Type);
+}
 
-	NumImages = ilGetInteger(IL_NUM_MIPMAPS);
-	for (i = 0; i < NumImages; i++) {
-		ilBindImage(ilGetCurName());  // Set to parent image first.
-		if (!ilActiveMipmap(i+1))
-			return IL_FALSE;
-		if (!ilFixCur())
-			return IL_FALSE;
-	}
 
-	NumImages = ilGetInteger(IL_NUM_LAYERS);
-	for (i = 0; i < NumImages; i++) {
-		ilBindImage(ilGetCurName());  // Set to parent image first.
-		if (!ilActiveLayer(i+1))
-			return IL_FALSE;
-		if (!ilFixCur())
+// Brings an image and everything that belongs to it into the form that the states ask for.
+static ILboolean iFixTree(ILimage *Image)
+{
+	ILimage		*Next;
+	ILboolean	Fixed;
+
+	for (; Image != NULL; Image = Next) {
+		// ilConvertImage gives all images of a chain the format of the first one.
+		Next = Image->Next;
+		Image->Next = NULL;
+		iCurImage = Image;
+		Fixed = ilFixCur();
+		Image->Next = Next;
+		if (!Fixed || !iFixTree(Image->Mipmaps) || !iFixTree(Image->Layers) || !iFixTree(Image->Faces))
 			return IL_FALSE;
 	}
 
-	ilBindImage(ilGetCurName());
-	ilFixCur();
-
 	return IL_TRUE;
 }
-*/
 
-/*
-This function was replaced 20050304, because the previous version
-didn't fix the mipmaps of the subimages etc. This version is not
-completely correct either, because the subimages of the subimages
-etc. are not fixed, but at the moment no images of this type can
-be loaded anyway. Thanks to Chris Lux for pointing this out.
-*/
 
+// Does this for the current image, which may itself be part of another image.
 ILboolean ilFixImage()
 {
-	ILuint NumFaces,  f;
-	ILuint NumImages, i;
-	ILuint NumMipmaps,j;
-	ILuint NumLayers, k;
-
-	NumImages = ilGetInteger(IL_NUM_IMAGES);
-	for (i = 0; i <= NumImages; i++) {
-		ilBindImage(ilGetCurName());  // Set to parent image first.
-		if (!ilActiveImage(i))
-			return IL_FALSE;
+	ILimage		*Image = iCurImage;
+	ILboolean	Fixed;
 
-		NumFaces = ilGetInteger(IL_NUM_FACES);
-		for (f = 0; f <= NumFaces; f++) {
-			ilBindImage(ilGetCurName());  // Set to parent image first.
-			if (!ilActiveImage(i))
-				return IL_FALSE;
-			if (!ilActiveFace(f))
-				return IL_FALSE;
+	Fixed = iFixTree(Image);
+	iCurImage = Image;
 
-			NumLayers = ilGetInteger(IL_NUM_LAYERS);
-			for (k = 0; k <= NumLayers; k++) {
-				ilBindImage(ilGetCurName());  // Set to parent image first.
-				if (!ilActiveImage(i))
-					return IL_FALSE;
-				if (!ilActiveFace(f))
-					return IL_FALSE;
-				if (!ilActiveLayer(k))
-					return IL_FALSE;
+	return Fixed;
+}
 
-				NumMipmaps = ilGetInteger(IL_NUM_MIPMAPS);
-				for (j = 0; j <= NumMipmaps; j++) {
-					ilBindImage(ilGetCurName());	// Set to parent image first.
-					if (!ilActiveImage(i))
-						return IL_FALSE;
-					if (!ilActiveFace(f))
-						return IL_FALSE;
-					if (!ilActiveLayer(k))
-						return IL_FALSE;
-					if (!ilActiveMipmap(j))
-						return IL_FALSE;
-					if (!ilFixCur())
-						return IL_FALSE;
-				}
-			}
-		}
+
+// To be called at the end of every load that went to Image.
+ILboolean iFinishLoad(ILimage *Image, ILboolean Loaded)
+{
+	if (Image == NULL)
+		return IL_FALSE;
+
+	// Some formats change the current image while they are read.
+	iCurImage = Image;
+	if (Loaded)
+		Loaded = ilFixImage();
+	if (!Loaded && ilIsEnabled(IL_DEFAULT_ON_FAIL)) {
+		if (ilDefaultImage())
+			ilFixImage();
 	}
-	ilBindImage(ilGetCurName());
 
-	return IL_TRUE;
+	return Loaded;
 }
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 607b021..af11b70 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -351,11 +351,8 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 				if (Image->Faces == NULL)
 					goto cube_fail;
 
-				ilBindImage(ilGetCurName()); // Set to parent image first.
-				//ilActiveImage(i); //@TODO: now Image == iCurImage...globals SUCK, fix this!!!
-				if (!ilActiveFace(Face))
-					goto cube_fail;
-				Image = iCurImage;
+				Image = Image->Faces;
+				iCurImage = Image;
 			}
 
 			if (!AllocImage(CompFormat, IsDXT10))
@@ -383,7 +380,7 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 		CompData = NULL;
 	}
 
-	ilBindImage(ilGetCurName());  // Set to parent image first.
+	iCurImage = startImage;
 	return ilFixImage();
 
 cube_fail:
@@ -391,8 +388,7 @@ cube_fail:
 		ifree(CompData);
 		CompData = NULL;
 	}
-	if (iCurImage != startImage)
-		ilBindImage(ilGetCurName());
+	iCurImage = startImage;
 	return IL_FALSE;
 }
 
@@ -507,7 +503,7 @@ ILboolean iLoadDdsInternal()
 		CompData = NULL;
 	}
 
-	ilBindImage(ilGetCurName());  // Set to parent image first.
+	iCurImage = Image;
 	return ilFixImage();
 }
 
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 0a32855..28a8369 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1002,18 +1002,7 @@ ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
 }
 
 
-//! Attempts to load an image from a file.  The file format is specified by the user.
-/*! \param Type Format of this file.  Acceptable values are IL_BLP, IL_BMP, IL_CUT, IL_DCX, IL_DDS,
-	IL_DICOM, IL_DOOM, IL_DOOM_FLAT, IL_DPX, IL_EXR, IL_FITS, IL_FTX, IL_GIF, IL_HDR, IL_ICO, IL_ICNS,
-	IL_IFF, IL_IWI, IL_JP2, IL_JPG, IL_LIF, IL_MDL,	IL_MNG, IL_MP3, IL_PCD, IL_PCX, IL_PIX, IL_PNG,
-	IL_PNM, IL_PSD, IL_PSP, IL_PXR, IL_ROT, IL_SGI, IL_SUN, IL_TEXTURE, IL_TGA, IL_TIF, IL_TPL,
-	IL_UTX, IL_VTF, IL_WAL, IL_WBMP, IL_XPM, IL_RAW, IL_JASC_PAL and IL_TYPE_UNKNOWN.
-	If IL_TYPE_UNKNOWN is specified, ilLoad will try to determine the type of the file and load it.
-	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
-	       the filename of the file to load.
-	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
-	       have been tried and failed.*/
-ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
+static ILboolean iLoadAny(ILenum Type, ILconst_string FileName)
 {
 	ILboolean	bRet;
 
@@ -1024,10 +1013,6 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 
 	switch (Type)
 	{
-		case IL_TYPE_UNKNOWN:
-			bRet = ilLoadImage(FileName);
-			break;
-
 		#ifndef IL_NO_TGA
 		case IL_TGA:
 			bRet = ilLoadTarga(FileName);
@@ -1334,16 +1319,28 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 }
 
 
-//! Attempts to load an image from a file stream.  The file format is specified by the user.
+//! Attempts to load an image from a file.  The file format is specified by the user.
 /*! \param Type Format of this file.  Acceptable values are IL_BLP, IL_BMP, IL_CUT, IL_DCX, IL_DDS,
 	IL_DICOM, IL_DOOM, IL_DOOM_FLAT, IL_DPX, IL_EXR, IL_FITS, IL_FTX, IL_GIF, IL_HDR, IL_ICO, IL_ICNS,
 	IL_IFF, IL_IWI, IL_JP2, IL_JPG, IL_LIF, IL_MDL,	IL_MNG, IL_MP3, IL_PCD, IL_PCX, IL_PIX, IL_PNG,
 	IL_PNM, IL_PSD, IL_PSP, IL_PXR, IL_ROT, IL_SGI, IL_SUN, IL_TEXTURE, IL_TGA, IL_TIF, IL_TPL,
 	IL_UTX, IL_VTF, IL_WAL, IL_WBMP, IL_XPM, IL_RAW, IL_JASC_PAL and IL_TYPE_UNKNOWN.
-	If IL_TYPE_UNKNOWN is specified, ilLoadF will try to determine the type of the file and load it.
-	\param File File stream to load from.
-	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
-ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
+	If IL_TYPE_UNKNOWN is specified, ilLoad will try to determine the type of the file and load it.
+	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
+	       the filename of the file to load.
+	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
+	       have been tried and failed.*/
+ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
+{
+	ILimage *Image = iCurImage;
+
+	if (Type == IL_TYPE_UNKNOWN)
+		return ilLoadImage(FileName);
+	return iFinishLoad(Image, iLoadAny(Type, FileName));
+}
+
+
+static ILboolean iLoadFAny(ILenum Type, ILHANDLE File)
 {
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -1608,17 +1605,24 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 }
 
 
-//! Attempts to load an image from a memory buffer.  The file format is specified by the user.
+//! Attempts to load an image from a file stream.  The file format is specified by the user.
 /*! \param Type Format of this file.  Acceptable values are IL_BLP, IL_BMP, IL_CUT, IL_DCX, IL_DDS,
 	IL_DICOM, IL_DOOM, IL_DOOM_FLAT, IL_DPX, IL_EXR, IL_FITS, IL_FTX, IL_GIF, IL_HDR, IL_ICO, IL_ICNS,
 	IL_IFF, IL_IWI, IL_JP2, IL_JPG, IL_LIF, IL_MDL,	IL_MNG, IL_MP3, IL_PCD, IL_PCX, IL_PIX, IL_PNG,
 	IL_PNM, IL_PSD, IL_PSP, IL_PXR, IL_ROT, IL_SGI, IL_SUN, IL_TEXTURE, IL_TGA, IL_TIF, IL_TPL,
 	IL_UTX, IL_VTF, IL_WAL, IL_WBMP, IL_XPM, IL_RAW, IL_JASC_PAL and IL_TYPE_UNKNOWN.
-	If IL_TYPE_UNKNOWN is specified, ilLoadL will try to determine the type of the file and load it.
-	\param Lump The buffer where the file data is located
-	\param Size Size of the buffer
+	If IL_TYPE_UNKNOWN is specified, ilLoadF will try to determine the type of the file and load it.
+	\param File File stream to load from.
 	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
-ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
+ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
+{
+	ILimage *Image = iCurImage;
+
+	return iFinishLoad(Image, iLoadFAny(Type, File));
+}
+
+
+static ILboolean iLoadLAny(ILenum Type, const void *Lump, ILuint Size)
 {
 	if (Lump == NULL || Size == 0) {
 		ilSetError(IL_INVALID_PARAM);
@@ -1881,18 +1885,25 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 }
 
 
-//! Attempts to load an image from a file with various different methods before failing - very generic.
-/*! The ilLoadImage function allows a general interface to the specific internal file-loading
-	routines.  First, it finds the extension and checks to see if any user-registered functions
-	(registered through ilRegisterLoad) match the extension. If nothing matches, it takes the
-	extension and determines which function to call based on it. Lastly, it attempts to identify
-	the image based on various image header verification functions, such as ilIsValidPngF.
-	If all this checking fails, IL_FALSE is returned with no modification to the current bound image.
-	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
-	       the filename of the file to load.
-	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
-	       have been tried and failed.*/
-ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
+//! Attempts to load an image from a memory buffer.  The file format is specified by the user.
+/*! \param Type Format of this file.  Acceptable values are IL_BLP, IL_BMP, IL_CUT, IL_DCX, IL_DDS,
+	IL_DICOM, IL_DOOM, IL_DOOM_FLAT, IL_DPX, IL_EXR, IL_FITS, IL_FTX, IL_GIF, IL_HDR, IL_ICO, IL_ICNS,
+	IL_IFF, IL_IWI, IL_JP2, IL_JPG, IL_LIF, IL_MDL,	IL_MNG, IL_MP3, IL_PCD, IL_PCX, IL_PIX, IL_PNG,
+	IL_PNM, IL_PSD, IL_PSP, IL_PXR, IL_ROT, IL_SGI, IL_SUN, IL_TEXTURE, IL_TGA, IL_TIF, IL_TPL,
+	IL_UTX, IL_VTF, IL_WAL, IL_WBMP, IL_XPM, IL_RAW, IL_JASC_PAL and IL_TYPE_UNKNOWN.
+	If IL_TYPE_UNKNOWN is specified, ilLoadL will try to determine the type of the file and load it.
+	\param Lump The buffer where the file data is located
+	\param Size Size of the buffer
+	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
+ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
+{
+	ILimage *Image = iCurImage;
+
+	return iFinishLoad(Image, iLoadLAny(Type, Lump, Size));
+}
+
+
+static ILboolean iLoadImageAny(ILconst_string FileName)
 {
 	ILstring	Ext;
 	ILenum		Type;
@@ -1910,11 +1921,7 @@ ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 
 	Ext = iGetExtension(FileName);
 
-	// Try registered procedures first (so users can override default lib functions).
 	if (Ext) {
-		if (iRegisterLoad(FileName, &bRet))
-			return bRet;
-
 		#ifndef IL_NO_TGA
 		if (!iStrCmp(Ext, IL_TEXT("tga")) || !iStrCmp(Ext, IL_TEXT("vda")) ||
 			!iStrCmp(Ext, IL_TEXT("icb")) || !iStrCmp(Ext, IL_TEXT("vst"))) {
@@ -2282,13 +2289,39 @@ ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 		ilSetError(IL_INVALID_EXTENSION);
 		return IL_FALSE;
 	}
-	return ilLoad(Type, FileName);
+	return iLoadAny(Type, FileName);
 
 finish:
 	return bRet;
 }
 
 
+//! Attempts to load an image from a file with various different methods before failing - very generic.
+/*! The ilLoadImage function allows a general interface to the specific internal file-loading
+	routines.  First, it finds the extension and checks to see if any user-registered functions
+	(registered through ilRegisterLoad) match the extension. If nothing matches, it takes the
+	extension and determines which function to call based on it. Lastly, it attempts to identify
+	the image based on various image header verification functions, such as ilIsValidPngF.
+	If all this checking fails, IL_FALSE is returned with no modification to the current bound image.
+	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
+	       the filename of the file to load.
+	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
+	       have been tried and failed.*/
+ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
+{
+	ILimage		*Image = iCurImage;
+	ILboolean	bRet;
+
+	// Try registered procedures first (so users can override default lib functions).
+	if (iCurImage != NULL && FileName != NULL && iGetExtension(FileName) != NULL) {
+		if (iRegisterLoad(FileName, &bRet))
+			return iFinishLoad(iCurImage, bRet);
+	}
+
+	return iFinishLoad(Image, iLoadImageAny(FileName));
+}
+
+
 static ILboolean iSaveType(ILenum Type, ILconst_string FileName);
 static ILuint iSaveTypeF(ILenum Type, ILHANDLE File);
 static ILuint iSaveTypeL(ILenum Type, void *Lump, ILuint Size);
diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index 0ba66b6..c4ca439 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -69,28 +69,23 @@ ILboolean ILAPIENTRY ilLoadDataL(void *Lump, ILuint Size, ILuint Width, ILuint H
 // Internal function to load a raw data image
 ILboolean iLoadDataInternal(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp)
 {
+	ILimage *Image = iCurImage;
+
 	if (iCurImage == NULL || ((Bpp != 1) && (Bpp != 3) && (Bpp != 4))) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (!ilTexImage(Width, Height, Depth, Bpp, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
+	if (!ilTexImage(Width, Height, Depth, Bpp, ilGetFormatBpp(Bpp), IL_UNSIGNED_BYTE, NULL)) {
+		return iFinishLoad(Image, IL_FALSE);
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	// Tries to read the correct amount of data
-	if (iread(iCurImage->Data, Width * Height * Depth * Bpp, 1) != 1)
-		return IL_FALSE;
+	if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
+		return iFinishLoad(Image, IL_FALSE);
 
-	if (iCurImage->Bpp == 1)
-		iCurImage->Format = IL_LUMINANCE;
-	else if (iCurImage->Bpp == 3)
-		iCurImage->Format = IL_RGB;
-	else  // 4
-		iCurImage->Format = IL_RGBA;
-
-	return ilFixImage();
+	return iFinishLoad(Image, IL_TRUE);
 }
 
 
@@ -104,16 +99,25 @@ ILboolean ILAPIENTRY ilSaveData(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	DataFile = iopenr(FileName);
+	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
+		if (iFileExists(FileName)) {
+			ilSetError(IL_FILE_ALREADY_EXISTS);
+			return IL_FALSE;
+		}
+	}
+
+	DataFile = iopenw(FileName);
 	if (DataFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
+	iResetWriteFailed();
+	iSetOutputFile(DataFile);
 	iwrite(iCurImage->Data, 1, iCurImage->SizeOfData);
-	icloser(DataFile);
+	iclosew(DataFile);
 
-	return IL_TRUE;
+	return !iHasWriteFailed();
 }
 
 
-- 
2.43.0


From e2fe7748ce847c223d0c0e90d6b0ee07fae38d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 090/161] fix: cut off headers are taken for PCX, PSD, SGI and
 TIFF files

---
 DevIL/src-IL/src/il_endian.cpp | 36 ++++++++++++++++++++++------------
 DevIL/src-IL/src/il_pcx.cpp    |  3 ++-
 DevIL/src-IL/src/il_psd.cpp    | 13 +++++++-----
 DevIL/src-IL/src/il_sgi.cpp    |  3 ++-
 4 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/DevIL/src-IL/src/il_endian.cpp b/DevIL/src-IL/src/il_endian.cpp
index 0c7ff2a..9098687 100644
--- a/DevIL/src-IL/src/il_endian.cpp
+++ b/DevIL/src-IL/src/il_endian.cpp
@@ -86,7 +86,8 @@ void iSwapDouble(ILdouble *d) {
 
 ILushort GetLittleUShort() {
 	ILushort s = 0;
-	iread(&s, sizeof(ILushort), 1);
+	if (iread(&s, sizeof(ILushort), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __BIG_ENDIAN__
 	iSwapUShort(&s);
 #endif
@@ -95,7 +96,8 @@ ILushort GetLittleUShort() {
 
 ILshort GetLittleShort() {
 	ILshort s = 0;
-	iread(&s, sizeof(ILshort), 1);
+	if (iread(&s, sizeof(ILshort), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __BIG_ENDIAN__
 	iSwapShort(&s);
 #endif
@@ -104,7 +106,8 @@ ILshort GetLittleShort() {
 
 ILuint GetLittleUInt() {
 	ILuint i = 0;
-	iread(&i, sizeof(ILuint), 1);
+	if (iread(&i, sizeof(ILuint), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __BIG_ENDIAN__
 	iSwapUInt(&i);
 #endif
@@ -113,7 +116,8 @@ ILuint GetLittleUInt() {
 
 ILint GetLittleInt() {
 	ILint i = 0;
-	iread(&i, sizeof(ILint), 1);
+	if (iread(&i, sizeof(ILint), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __BIG_ENDIAN__
 	iSwapInt(&i);
 #endif
@@ -122,7 +126,8 @@ ILint GetLittleInt() {
 
 ILfloat GetLittleFloat() {
 	ILfloat f = 0;
-	iread(&f, sizeof(ILfloat), 1);
+	if (iread(&f, sizeof(ILfloat), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __BIG_ENDIAN__
 	iSwapFloat(&f);
 #endif
@@ -131,7 +136,8 @@ ILfloat GetLittleFloat() {
 
 ILdouble GetLittleDouble() {
 	ILdouble d = 0;
-	iread(&d, sizeof(ILdouble), 1);
+	if (iread(&d, sizeof(ILdouble), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __BIG_ENDIAN__
 	iSwapDouble(&d);
 #endif
@@ -140,7 +146,8 @@ ILdouble GetLittleDouble() {
 
 ILushort GetBigUShort() {
 	ILushort s = 0;
-	iread(&s, sizeof(ILushort), 1);
+	if (iread(&s, sizeof(ILushort), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __LITTLE_ENDIAN__
 	iSwapUShort(&s);
 #endif
@@ -149,7 +156,8 @@ ILushort GetBigUShort() {
 
 ILshort GetBigShort() {
 	ILshort s = 0;
-	iread(&s, sizeof(ILshort), 1);
+	if (iread(&s, sizeof(ILshort), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __LITTLE_ENDIAN__
 	iSwapShort(&s);
 #endif
@@ -158,7 +166,8 @@ ILshort GetBigShort() {
 
 ILuint GetBigUInt() {
 	ILuint i = 0;
-	iread(&i, sizeof(ILuint), 1);
+	if (iread(&i, sizeof(ILuint), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __LITTLE_ENDIAN__
 	iSwapUInt(&i);
 #endif
@@ -167,7 +176,8 @@ ILuint GetBigUInt() {
 
 ILint GetBigInt() {
 	ILint i = 0;
-	iread(&i, sizeof(ILint), 1);
+	if (iread(&i, sizeof(ILint), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __LITTLE_ENDIAN__
 	iSwapInt(&i);
 #endif
@@ -176,7 +186,8 @@ ILint GetBigInt() {
 
 ILfloat GetBigFloat() {
 	ILfloat f = 0;
-	iread(&f, sizeof(ILfloat), 1);
+	if (iread(&f, sizeof(ILfloat), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __LITTLE_ENDIAN__
 	iSwapFloat(&f);
 #endif
@@ -185,7 +196,8 @@ ILfloat GetBigFloat() {
 
 ILdouble GetBigDouble() {
 	ILdouble d = 0;
-	iread(&d, sizeof(ILdouble), 1);
+	if (iread(&d, sizeof(ILdouble), 1) != 1)
+		return 0;  // Nothing of a value that is cut off.
 #ifdef __LITTLE_ENDIAN__
 	iSwapDouble(&d);
 #endif
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 2086d2b..1b9872b 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -83,7 +83,8 @@ ILboolean iGetPcxHead(PCXHEAD *Head)
 	Head->PaletteInfo = GetLittleUShort();
 	Head->HScreenSize = GetLittleUShort();
 	Head->VScreenSize = GetLittleUShort();
-	iread(Head->Filler, 1, 54);
+	if (iread(Head->Filler, 1, 54) != 54)
+		return IL_FALSE;
 
 	return IL_TRUE;
 }
diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index f687ad5..7f5434c 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -90,7 +90,10 @@ ILboolean ilIsValidPsdL(const void *Lump, ILuint Size)
 // Internal function used to get the Psd header from the current file.
 ILboolean iGetPsdHead(PSDHEAD *Header)
 {
-	iread(Header->Signature, 1, 4);
+	ILuint Pos = itell();
+
+	if (iread(Header->Signature, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Version = GetBigUShort();
 	iread(Header->Reserved, 1, 6);
 	Header->Channels = GetBigUShort();
@@ -99,7 +102,7 @@ ILboolean iGetPsdHead(PSDHEAD *Header)
 	Header->Depth = GetBigUShort();
 	Header->Mode = GetBigUShort();
 
-	return IL_TRUE;
+	return itell() - Pos == sizeof(PSDHEAD);
 }
 
 
@@ -108,7 +111,8 @@ ILboolean iIsValidPsd()
 {
 	PSDHEAD	Head;
 
-	iGetPsdHead(&Head);
+	if (!iGetPsdHead(&Head))
+		return IL_FALSE;
 	iseek(-(ILint)sizeof(PSDHEAD), IL_SEEK_CUR);
 
 	return iCheckPsd(&Head);
@@ -191,8 +195,7 @@ ILboolean iLoadPsdInternal()
 		return IL_FALSE;
 	}
 
-	iGetPsdHead(&Header);
-	if (!iCheckPsd(&Header)) {
+	if (!iGetPsdHead(&Header) || !iCheckPsd(&Header)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 29ea5e7..10ca11e 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -87,7 +87,8 @@ ILboolean iGetSgiHead(iSgiHeader *Header)
 	Header->Dummy1 = GetBigInt();
 	iread(Header->Name, 1, 80);
 	Header->ColMap = GetBigInt();
-	iread(Header->Dummy, 1, 404);
+	if (iread(Header->Dummy, 1, 404) != 404)
+		return IL_FALSE;
 
 	return IL_TRUE;
 }
-- 
2.43.0


From 47f1a5d83e1a2cfa804ef0896d5bf7f340dea560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 091/161] fix: refused calls leave the image alone and report
 an error (formats of ilTexImage, png errors, DXTC of chains)

---
 DevIL/src-IL/src/il_convbuff.cpp |   5 ++
 DevIL/src-IL/src/il_dds.cpp      | 146 ++++++++++++++++++++-----------
 DevIL/src-IL/src/il_devil.cpp    |   6 ++
 DevIL/src-IL/src/il_manip.cpp    |   4 +-
 DevIL/src-IL/src/il_pic.cpp      |   2 +-
 DevIL/src-IL/src/il_png.cpp      |  30 ++++---
 6 files changed, 127 insertions(+), 66 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 5220aed..05544f5 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -107,6 +107,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
+	if (ilGetBppFormat(SrcFormat) == 0 || ilGetBppFormat(DestFormat) == 0
+		|| ilGetBpcType(SrcType) == 0 || ilGetBpcType(DestType) == 0) {
+		ilSetError(IL_INVALID_CONVERSION);
+		return NULL;
+	}
 
 	if (SrcFormat == IL_COLOUR_INDEX && SrcFormat != DestFormat) {
 		// The palette entries are bytes, so switch types only after looking them up.
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index af11b70..f92a7a9 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -2050,23 +2050,25 @@ void ilFreeImageDxtcData()
 /*
  * This assumes DxtcData, DxtcFormat, width, height, and depth are valid
  */
+// Can the compressed data of an image be decompressed?
+static ILboolean iHasDxtcData(ILimage *Image)
+{
+	return Image->DxtcData != NULL && (Image->DxtcFormat == IL_DXT1 || Image->DxtcFormat == IL_DXT3
+		|| Image->DxtcFormat == IL_DXT5);
+}
+
+
 ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 {
 	ILuint	CompFormat;
 	ILubyte	*Data;
 	size_t	Size;
 
-	if (iCurImage == NULL || iCurImage->DxtcData == NULL) {
+	if (iCurImage == NULL || !iHasDxtcData(iCurImage)) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
-	if (!(iCurImage->DxtcFormat == IL_DXT1 || iCurImage->DxtcFormat == IL_DXT3
-		|| iCurImage->DxtcFormat == IL_DXT5)) {
-		ilSetError(IL_INVALID_PARAM); //TODO
-		return IL_FALSE;
-	}
-
 	switch(iCurImage->DxtcFormat)
 	{
 		case IL_DXT1: CompFormat = PF_DXT1; break;
@@ -2113,44 +2115,44 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 
 ILAPI ILboolean ILAPIENTRY ilDxtcDataToImage()
 {
-	ILint i, j;
-	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
-	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
-	ILint MipCount;
-	ILimage *CurImage = iCurImage;
-	ILboolean ret = IL_TRUE;
+	ILuint		ImgID = ilGetInteger(IL_CUR_IMAGE);
+	ILimage		*CurImage = iCurImage, *Base, *Img, *Mip;
+	ILboolean	Ret = IL_TRUE;
 
-	for(i = 0; i <= ImgCount; ++i) {
-		ilBindImage(ImgID);
-		ilActiveImage(i);
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
-		MipCount = ilGetInteger(IL_NUM_MIPMAPS);
-		for(j = 0; j <= MipCount; ++j) {
-			ilBindImage(ImgID);
-			ilActiveImage(i);
-			ilActiveMipmap(j);
+	ilBindImage(ImgID);
+	Base = iCurImage;
+	// Nothing is changed unless all of the images can be decompressed.
+	for (Img = Base; Img != NULL && Ret; Img = Img->Next) {
+		for (Mip = Img; Mip != NULL && Ret; Mip = Mip->Mipmaps)
+			Ret = iHasDxtcData(Mip);
+	}
+	if (!Ret)
+		ilSetError(IL_INVALID_PARAM);
 
-			if (!ilDxtcDataToSurface())
-				ret = IL_FALSE;
+	for (Img = Base; Img != NULL && Ret; Img = Img->Next) {
+		for (Mip = Img; Mip != NULL && Ret; Mip = Mip->Mipmaps) {
+			iCurImage = Mip;
+			Ret = ilDxtcDataToSurface();
 		}
 	}
 	iCurImage = CurImage;
 
-	return ret;
+	return Ret;
 }
 
 
-ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
+// Compresses the pixels of the current image into a new buffer.
+static ILubyte* iCompressCurImage(ILenum Format, ILuint *DataSize)
 {
 	ILuint		Size;
 	ILubyte*	Data;
 	ILubyte*	OldData;
 
-	if (iCurImage == NULL) {
-		ilSetError(IL_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
 	// The pixels have to be compressed, not copied from data that was kept before.
 	OldData = iCurImage->DxtcData;
 	iCurImage->DxtcData = NULL;
@@ -2163,13 +2165,28 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 		ifree(Data);
 		Data = NULL;
 	}
-	if (Data == NULL) {
-		iCurImage->DxtcData = OldData;
+	iCurImage->DxtcData = OldData;
+	*DataSize = Size;
+	return Data;
+}
+
+
+ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
+{
+	ILuint		Size;
+	ILubyte*	Data;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (OldData != NULL)
-		ifree(OldData);
+	Data = iCompressCurImage(Format, &Size);
+	if (Data == NULL)
+		return IL_FALSE;
+
+	if (iCurImage->DxtcData != NULL)
+		ifree(iCurImage->DxtcData);
 
 	//These have to be after the call to ilGetDXTCData()
 	iCurImage->DxtcData = Data;
@@ -2182,31 +2199,56 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 
 ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 {
-	ILint i, j;
-	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
-	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
-	ILint MipCount;
-	ILimage *CurImage = iCurImage;
-	ILboolean ret = IL_TRUE;
-
-	for (i = 0; i <= ImgCount; ++i) {
-		ilBindImage(ImgID);
-		ilActiveImage(i);
+	ILuint		ImgID = ilGetInteger(IL_CUR_IMAGE), Num = 0, i;
+	ILimage		*CurImage = iCurImage, *Base, *Img, *Mip;
+	ILubyte		**Data;
+	ILuint		*Size;
+	ILboolean	Ret = IL_TRUE;
 
-		MipCount = ilGetInteger(IL_NUM_MIPMAPS);
-		for(j = 0; j <= MipCount; ++j) {
-			ilBindImage(ImgID);
-			ilActiveImage(i);
-			ilActiveMipmap(j);
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
-			if (!ilSurfaceToDxtcData(Format))
-				ret = IL_FALSE;
+	ilBindImage(ImgID);
+	Base = iCurImage;
+	for (Img = Base; Img != NULL; Img = Img->Next) {
+		for (Mip = Img; Mip != NULL; Mip = Mip->Mipmaps)
+			Num++;
+	}
+
+	// Nothing is kept unless all of the images can be compressed.
+	Data = (ILubyte**)icalloc(Num, sizeof(ILubyte*));
+	Size = (ILuint*)icalloc(Num, sizeof(ILuint));
+	if (Data == NULL || Size == NULL)
+		Ret = IL_FALSE;
+	for (Img = Base, i = 0; Img != NULL && Ret; Img = Img->Next) {
+		for (Mip = Img; Mip != NULL && Ret; Mip = Mip->Mipmaps, i++) {
+			iCurImage = Mip;
+			Data[i] = iCompressCurImage(Format, &Size[i]);
+			if (Data[i] == NULL)
+				Ret = IL_FALSE;
 		}
 	}
 
+	for (Img = Base, i = 0; Img != NULL && Data != NULL; Img = Img->Next) {
+		for (Mip = Img; Mip != NULL; Mip = Mip->Mipmaps, i++) {
+			if (!Ret) {
+				ifree(Data[i]);
+				continue;
+			}
+			if (Mip->DxtcData != NULL)
+				ifree(Mip->DxtcData);
+			Mip->DxtcData = Data[i];
+			Mip->DxtcFormat = Format;
+			Mip->DxtcSize = Size[i];
+		}
+	}
+	ifree(Data);
+	ifree(Size);
 	iCurImage = CurImage;
 
-	return ret;
+	return Ret;
 }
 
 
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 9aa8c7d..63cb230 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -137,6 +137,12 @@ ILAPI ILimage* ILAPIENTRY ilNewImageFull(ILuint Width, ILuint Height, ILuint Dep
 	\return Boolean value of failure or success*/
 ILboolean ILAPIENTRY ilTexImage(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
+	// An image whose format is unknown or does not have that many channels cannot be used (0 is
+	//  allowed: the format is registered later).
+	if (Format != 0 ? ilGetBppFormat(Format) != Bpp : Bpp > 4) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
 	return ilTexImage_(iCurImage, Width, Height, Depth, Bpp, Format, Type, Data);
 }
 
diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 74a28ed..8b3195a 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -886,8 +886,10 @@ ILboolean ILAPIENTRY ilClampNTSC(void)
         return IL_FALSE;
     }
 
-	if (iCurImage->Type != IL_UNSIGNED_BYTE)  // Should we set an error here?
+	if (iCurImage->Type != IL_UNSIGNED_BYTE) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
+	}
 
 	for (z = 0; z < iCurImage->Depth; z++) {
 		for (y = 0; y < iCurImage->Height; y++) {
diff --git a/DevIL/src-IL/src/il_pic.cpp b/DevIL/src-IL/src/il_pic.cpp
index ea0ad58..d4d459e 100644
--- a/DevIL/src-IL/src/il_pic.cpp
+++ b/DevIL/src-IL/src/il_pic.cpp
@@ -218,7 +218,7 @@ ILboolean iLoadPicInternal()
 		}
 	}
 	else {  // No alpha channel
-		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
 			Read = IL_FALSE;
 			goto finish;  // Have to destroy Channels first.
 		}
diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 5ceb645..70608c3 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -489,14 +489,20 @@ ILboolean iSavePngInternal()
 	png_text	text[4];
 	ILenum		PngType;
 	ILuint		BitDepth, i, j;
-	ILubyte 	**RowPtr = NULL;
-	ILimage 	*Temp = NULL;
+	ILubyte 	** volatile RowPtr = NULL;  // Used after a longjmp()
+	ILimage 	* volatile Temp = NULL;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	// The indices of a .png have at most 8 bits.
+	if (iCurImage->Format == IL_COLOUR_INDEX && iCurImage->Bpc != 1) {
+		ilSetError(IL_INVALID_ENUM);
+		return IL_FALSE;
+	}
+
 	/* Create and initialize the png_struct with the desired error handler
 	* functions.  If you want to use the default stderr and longjump method,
 	* you can supply NULL for the last three parameters.  We also check that
@@ -516,14 +522,12 @@ ILboolean iSavePngInternal()
 		goto error_label;
 	}
 
-	/*// Set error handling.  REQUIRED if you aren't supplying your own
+	// Set error handling.  REQUIRED if you aren't supplying your own
 	//	error handling functions in the png_create_write_struct() call.
 	if (setjmp(png_jmpbuf(png_ptr))) {
-		// If we get here, we had a problem reading the file
-		png_destroy_write_struct(&png_ptr, &info_ptr);
-		ilSetError(IL_LIB_PNG_ERROR);
-		return IL_FALSE;
-	}*/
+		// If we get here, we had a problem writing the file: png_error_func() has set the error.
+		goto error_label;
+	}
 
 //	png_init_io(png_ptr, PngFile);
 	png_set_write_fn(png_ptr, NULL, png_write, flush_data);
@@ -606,6 +610,8 @@ ILboolean iSavePngInternal()
         }
 
 		TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+		if (TempPal == NULL)
+			goto error_label;
 		png_set_PLTE(png_ptr, info_ptr, (png_colorp)TempPal->Palette, numCols);
         ilClosePal(TempPal);
 
@@ -664,10 +670,7 @@ ILboolean iSavePngInternal()
 	text[3].compression = PNG_TEXT_COMPRESSION_NONE;
 	png_set_text(png_ptr, info_ptr, text, 3);
 
-	// Write the file header information.  REQUIRED.
-	png_write_info(png_ptr, info_ptr);
-
-	// Free up our user-defined text.
+	// Free up our user-defined text: png_set_text() has made its own copy.
 	if (text[1].text)
 		ifree(text[1].text);
 	if (text[2].text)
@@ -675,6 +678,9 @@ ILboolean iSavePngInternal()
 	if (text[3].text)
 		ifree(text[3].text);
 
+	// Write the file header information.  REQUIRED.
+	png_write_info(png_ptr, info_ptr);
+
 	/* Shift the pixels up to a legal bit depth and fill in
 	* as appropriate to correctly scale the image.
 	*/
-- 
2.43.0


From 8375ef7492743789afbe979cd1a2f2f4f4228b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 092/161] fix: ilInit drops every pending error, saves outside
 a session are refused

---
 DevIL/src-IL/src/il_io.cpp    | 14 ++++++++++++++
 DevIL/src-IL/src/il_stack.cpp |  7 +++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 28a8369..3296467 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2344,6 +2344,11 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 
 static ILboolean iSaveType(ILenum Type, ILconst_string FileName)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
@@ -2472,6 +2477,10 @@ static ILuint iSaveTypeF(ILenum Type, ILHANDLE File)
 		ilSetError(IL_INVALID_PARAM);
 		return 0;
 	}
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
 
 	switch (Type)
 	{
@@ -2602,6 +2611,11 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 
 static ILuint iSaveTypeL(ILenum Type, void *Lump, ILuint Size)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
+
 	if (Lump == NULL) {
 		if (Size != 0) {
 			ilSetError(IL_INVALID_PARAM);
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 921dc88..74cde3f 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -626,13 +626,16 @@ void ILAPIENTRY ilInit()
 		return;
 	
 	//ilSetMemory(NULL, NULL);  Now useless 3/4/2006 (due to modification in il_alloc.c)
-	ilSetError(IL_NO_ERROR);
 	ilDefaultStates();  // Set states to their defaults.
 	// Sets default file-reading callbacks.
 	ilResetRead();
 	ilResetWrite();
 #if (!defined(_WIN32_WCE)) && (!defined(IL_STATIC_LIB))
-	atexit(ilRemoveRegisteredInternal);
+	static ILboolean OnExit = IL_FALSE;
+	if (!OnExit) {
+		atexit(ilRemoveRegisteredInternal);
+		OnExit = IL_TRUE;
+	}
 #endif
 	//_WIN32_WCE
 	//ilShutDown();
-- 
2.43.0


From 2630bba05a8ba0ea11abe228ad92a3ab883feaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 093/161] fix: iluInit sets the defaults of the image
 parameters and the region

---
 DevIL/src-ILU/src/ilu_main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DevIL/src-ILU/src/ilu_main.cpp b/DevIL/src-ILU/src/ilu_main.cpp
index 535ae94..d6a0497 100644
--- a/DevIL/src-ILU/src/ilu_main.cpp
+++ b/DevIL/src-ILU/src/ilu_main.cpp
@@ -50,7 +50,11 @@ void ILAPIENTRY iluInit()
 	//IL_PI = 4 * atan(1);		// precomputed value of pi
 	//IL_DEGCONV = IL_PI / 180;	// division is slow on some computers
 
+	// Everything has its default value after this.
 	iluSetLanguage(ILU_ENGLISH);
+	iluImageParameter(ILU_FILTER, ILU_NEAREST);
+	iluImageParameter(ILU_PLACEMENT, ILU_CENTER);
+	iluRegioniv(NULL, 0);
 	return;
 }
 
-- 
2.43.0


From deb7d7535a8a67562a101bb5e4297807dd489cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 094/161] fix: ilInit starts afresh whatever was called before
 it

---
 DevIL/src-IL/src/il_stack.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 74cde3f..77f7ece 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -618,6 +618,8 @@ void ilRemoveRegisteredInternal()
 	ilRemoveRegistered();
 }
 
+static void iReleaseSession(void);
+
 // ONLY call at startup.
 void ILAPIENTRY ilInit()
 {
@@ -626,6 +628,7 @@ void ILAPIENTRY ilInit()
 		return;
 	
 	//ilSetMemory(NULL, NULL);  Now useless 3/4/2006 (due to modification in il_alloc.c)
+	iReleaseSession();  // Calls made before may have left something behind.
 	ilDefaultStates();  // Set states to their defaults.
 	// Sets default file-reading callbacks.
 	ilResetRead();
@@ -651,19 +654,22 @@ void ILAPIENTRY ilInit()
 void ILAPIENTRY ilShutDown()
 {
 	// if it is not initialized do not shutdown
-	iFree* TempFree = (iFree*)FreeNames;
-	ILuint i;
-	
 	if (!IsInit)
 		return;
 
-	if (!IsInit) {  // Prevent from being called when not initialized.
-		ilSetError(IL_ILLEGAL_OPERATION);
-		return;
-	}
-
 	iDropCache();
 	ilRemoveRegistered();
+	iReleaseSession();
+	IsInit = IL_FALSE;
+	return;
+}
+
+
+// Releases all of the images and the states.
+static void iReleaseSession(void)
+{
+	iFree* TempFree = (iFree*)FreeNames;
+	ILuint i;
 
 	while (TempFree != NULL) {
 		FreeNames = (iFree*)TempFree->Next;
@@ -685,7 +691,6 @@ void ILAPIENTRY ilShutDown()
 	LastUsed = 0;
 	StackSize = 0;
 	iFreeStates();
-	IsInit = IL_FALSE;
 	return;
 }
 
-- 
2.43.0


From 0d69e5761dba2037b43a514421e1d322e13dc9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 095/161] fix: ilGetAlpha leaks, and returns no alpha of half
 images and NaN for opaque floats

---
 DevIL/src-IL/src/il_manip.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 8b3195a..0d6a8ff 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -656,6 +656,14 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		case IL_LUMINANCE:
 		case IL_COLOUR_INDEX:  // @TODO: Make IL_COLOUR_INDEX separate.
 			memset(Alpha, 0xFF, Size / TempImage->Bpp * Bpc);
+			for (i = 0; i < Size / TempImage->Bpp; i++) {  // Opaque is 1.0 in these.
+				if (Type == IL_FLOAT)
+					((ILfloat*)Alpha)[i] = 1.0f;
+				else if (Type == IL_DOUBLE)
+					((ILdouble*)Alpha)[i] = 1.0;
+				else if (Type == IL_HALF)
+					((ILushort*)Alpha)[i] = 0x3C00;
+			}
 			if (TempImage != iCurImage)
 				ilCloseImage(TempImage);
 			return Alpha;
@@ -664,6 +672,8 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 	// If our format is alpha, just return a copy.
 	if (TempImage->Format == IL_ALPHA) {
 		memcpy(Alpha, TempImage->Data, TempImage->SizeOfData);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		return Alpha;
 	}
 		
@@ -682,6 +692,7 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
+		case IL_HALF:
 			AlphaShort = (ILushort*)Alpha;
 			for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
 				AlphaShort[j] = ((ILushort*)TempImage->Data)[i];
-- 
2.43.0


From 535325d8c4ffd8a95fa83521c573681309cbf176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 096/161] fix: a broken png leaks its row pointers

---
 DevIL/src-IL/src/il_png.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 70608c3..d92773e 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -249,7 +249,7 @@ ILint readpng_init()
 
 ILboolean readpng_get_image(ILdouble display_exponent)
 {
-	png_bytepp	row_pointers = NULL;
+	png_bytepp	volatile row_pointers = NULL;
 	png_uint_32 width, height; // Changed the type to fix AMD64 bit problems, thanks to Eric Werness
 	ILdouble	screen_gamma = 1.0;
 	ILuint		i, channels;
@@ -265,6 +265,7 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 
 	if (setjmp(png_jmpbuf(png_ptr))) {
 		png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+		ifree(row_pointers);
 		return IL_FALSE;
 	}
 
@@ -367,6 +368,12 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 		iCurImage->Pal.PalSize = num_palette * chans;
 
 		iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
+		if (iCurImage->Pal.Palette == NULL) {
+			iCurImage->Pal.PalSize = 0;
+			iCurImage->Pal.PalType = IL_PAL_NONE;
+			png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < num_palette; ++j) {
 			iCurImage->Pal.Palette[chans*j + 0] = palette[j].red;
-- 
2.43.0


From 5bb79ccbbd3184fc190511a218f7327b800da611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 097/161] fix: converting an indexed image with a key colour
 recurses without end, ilKeyColour has no effect

---
 DevIL/src-IL/src/il_convert.cpp | 279 +++++++++++---------------------
 DevIL/src-IL/src/il_stack.cpp   |   3 +-
 2 files changed, 95 insertions(+), 187 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 061050d..ec24273 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -412,10 +412,6 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 		}
 	}
 
-	if (ilIsEnabled(IL_USE_KEY_COLOUR)) {
-		ilAddAlphaKey(iCurImage);
-	}
-
 	// Convert all of the images before changing any of them.
 	for (pCurImage = iCurImage; pCurImage != NULL; pCurImage = pCurImage->Next)
 		NumImages++;
@@ -425,7 +421,18 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 	for (pCurImage = iCurImage, i = 0; pCurImage != NULL; pCurImage = pCurImage->Next, i++) {
 		if (DestFormat == pCurImage->Format && DestType == pCurImage->Type)
 			continue;
-		Images[i] = iConvertImage(pCurImage, DestFormat, DestType);
+		Image = NULL;
+		if (ilIsEnabled(IL_USE_KEY_COLOUR) && (DestFormat == IL_RGBA || DestFormat == IL_BGRA
+			|| DestFormat == IL_LUMINANCE_ALPHA || DestFormat == IL_ALPHA) && (pCurImage->Format == IL_RGB
+			|| pCurImage->Format == IL_BGR || (pCurImage->Format == IL_COLOUR_INDEX && pCurImage->Pal.Palette != NULL))) {
+			// The key colour becomes transparent first.
+			Image = ilCopyImage_(pCurImage);
+			if (Image != NULL && ilAddAlphaKey(Image))
+				Images[i] = iConvertImage(Image, DestFormat, DestType);
+			ilCloseImage(Image);
+		}
+		else
+			Images[i] = iConvertImage(pCurImage, DestFormat, DestType);
 		if (Images[i] == NULL) {
 			while (i-- > 0)
 				ilCloseImage(Images[i]);
@@ -689,12 +696,11 @@ ILboolean ilAddAlpha()
 }
 
 
-//ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
+static ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
 
 void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclampf Alpha)
 {
-	ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
-        KeyRed		= Red;
+	KeyRed		= Red;
 	KeyGreen	= Green;
 	KeyBlue		= Blue;
 	KeyAlpha	= Alpha;
@@ -702,212 +708,113 @@ void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclamp
 }
 
 
+// Is the component at Index the one of the key colour?
+static ILboolean iIsKeyComponent(ILimage *Image, ILuint Index, ILfloat Key)
+{
+	ILuint	Bits;
+	ILfloat	Value;
+
+	switch (Image->Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			return Image->Data[Index] == (ILubyte)(Key * UCHAR_MAX + 0.5f);
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			return ((ILushort*)Image->Data)[Index] == (ILushort)(Key * USHRT_MAX + 0.5f);
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			return ((ILuint*)Image->Data)[Index] == (ILuint)((ILdouble)Key * UINT_MAX + 0.5);
+		case IL_HALF:
+			Bits = ilHalfToFloat(((ILushort*)Image->Data)[Index]);
+			memcpy(&Value, &Bits, sizeof(Value));
+			return Value == Key;
+		case IL_FLOAT:
+			return ((ILfloat*)Image->Data)[Index] == Key;
+		case IL_DOUBLE:
+			return ((ILdouble*)Image->Data)[Index] == Key;
+	}
+	return IL_FALSE;
+}
+
+
 // Adds an alpha channel to an 8 or 24-bit image,
 //	making the image transparent where Key is equal to the pixel.
 ILboolean ilAddAlphaKey(ILimage *Image)
 {
-	ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
-        ILubyte		*NewData, NewBpp;
+	ILubyte		*NewData, NewBpp;
 	ILfloat		KeyColour[3];
-	ILuint		i = 0, j = 0, c, Size;
+	ILuint		i, j, c, Size, Index;
 	ILboolean	Same;
+	ILpal		*NewPal;
 
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (Image->Format != IL_COLOUR_INDEX) {
-		if (Image->Bpp != 3) {
-			ilSetError(IL_INVALID_VALUE);
+	if (Image->Format == IL_COLOUR_INDEX) {
+		// KeyAlpha selects the palette entry that becomes transparent.
+		Index = (ILuint)(KeyAlpha * UCHAR_MAX + 0.5f);
+		NewPal = iConvertPal(&Image->Pal, (Image->Pal.PalType == IL_PAL_BGR24 || Image->Pal.PalType == IL_PAL_BGR32
+			|| Image->Pal.PalType == IL_PAL_BGRA32) ? IL_PAL_BGRA32 : IL_PAL_RGBA32);
+		if (NewPal == NULL)
 			return IL_FALSE;
-		}
+		if (Index < NewPal->PalSize / 4)
+			NewPal->Palette[Index * 4 + 3] = 0;
+		ifree(Image->Pal.Palette);
+		Image->Pal = *NewPal;
+		ifree(NewPal);
+		return IL_TRUE;
+	}
 
-		if (Image->Format == IL_BGR || Image->Format == IL_BGRA) {
-			KeyColour[0] = KeyBlue;
-			KeyColour[1] = KeyGreen;
-			KeyColour[2] = KeyRed;
-		}
-		else {
-			KeyColour[0] = KeyRed;
-			KeyColour[1] = KeyGreen;
-			KeyColour[2] = KeyBlue;
-		}
+	if (Image->Format != IL_RGB && Image->Format != IL_BGR) {
+		ilSetError(IL_INVALID_VALUE);
+		return IL_FALSE;
+	}
 
-		Size = Image->SizeOfData / Image->Bpc;
+	KeyColour[0] = Image->Format == IL_BGR ? KeyBlue : KeyRed;
+	KeyColour[1] = KeyGreen;
+	KeyColour[2] = Image->Format == IL_BGR ? KeyRed : KeyBlue;
 
-		NewBpp = (ILubyte)(Image->Bpp + 1);
-		
-		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height * Image->Depth);
-		if (NewData == NULL) {
-			return IL_FALSE;
-		}
+	Size = Image->SizeOfData / Image->Bpc;
+	NewBpp = (ILubyte)(Image->Bpp + 1);
+	NewData = (ILubyte*)ialloc((ILsizei)NewBpp * Image->Bpc * Image->Width * Image->Height * Image->Depth);
+	if (NewData == NULL)
+		return IL_FALSE;
 
+	for (i = 0, j = 0; i < Size; i += Image->Bpp, j += NewBpp) {
+		memcpy(NewData + (ILsizei)j * Image->Bpc, Image->Data + (ILsizei)i * Image->Bpc, Image->Bpp * Image->Bpc);
+		Same = IL_TRUE;
+		for (c = 0; c < Image->Bpp; c++) {
+			if (!iIsKeyComponent(Image, i + c, KeyColour[c]))
+				Same = IL_FALSE;
+		}
+		// Transparent where it matches the key colour
 		switch (Image->Type)
 		{
-			case IL_BYTE:
-			case IL_UNSIGNED_BYTE:
-				for (; i < Size; i += Image->Bpp, j += NewBpp) {
-					NewData[j]   = Image->Data[i];
-					NewData[j+1] = Image->Data[i+1];
-					NewData[j+2] = Image->Data[i+2];
-					Same = IL_TRUE;
-					for (c = 0; c < Image->Bpp; c++) {
-						if (Image->Data[i+c] != KeyColour[c] * UCHAR_MAX)
-							Same = IL_FALSE;
-					}
-
-					if (Same)
-						NewData[j+3] = 0;  // Transparent - matches key colour
-					else
-						NewData[j+3] = UCHAR_MAX;
-				}
-				break;
-
-			case IL_SHORT:
-			case IL_UNSIGNED_SHORT:
-				for (; i < Size; i += Image->Bpp, j += NewBpp) {
-					((ILushort*)NewData)[j]   = ((ILushort*)Image->Data)[i];
-					((ILushort*)NewData)[j+1] = ((ILushort*)Image->Data)[i+1];
-					((ILushort*)NewData)[j+2] = ((ILushort*)Image->Data)[i+2];
-					Same = IL_TRUE;
-					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILushort*)Image->Data)[i+c] != KeyColour[c] * USHRT_MAX)
-							Same = IL_FALSE;
-					}
-
-					if (Same)
-						((ILushort*)NewData)[j+3] = 0;
-					else
-						((ILushort*)NewData)[j+3] = USHRT_MAX;
-				}
-				break;
-
-			case IL_INT:
-			case IL_UNSIGNED_INT:
-				for (; i < Size; i += Image->Bpp, j += NewBpp) {
-					((ILuint*)NewData)[j]   = ((ILuint*)Image->Data)[i];
-					((ILuint*)NewData)[j+1] = ((ILuint*)Image->Data)[i+1];
-					((ILuint*)NewData)[j+2] = ((ILuint*)Image->Data)[i+2];
-					Same = IL_TRUE;
-					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILuint*)Image->Data)[i+c] != KeyColour[c] * UINT_MAX)
-							Same = IL_FALSE;
-					}
-
-					if (Same)
-						((ILuint*)NewData)[j+3] = 0;
-					else
-						((ILuint*)NewData)[j+3] = UINT_MAX;
-				}
-				break;
-
 			case IL_FLOAT:
-				for (; i < Size; i += Image->Bpp, j += NewBpp) {
-					((ILfloat*)NewData)[j]   = ((ILfloat*)Image->Data)[i];
-					((ILfloat*)NewData)[j+1] = ((ILfloat*)Image->Data)[i+1];
-					((ILfloat*)NewData)[j+2] = ((ILfloat*)Image->Data)[i+2];
-					Same = IL_TRUE;
-					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILfloat*)Image->Data)[i+c] != KeyColour[c])
-							Same = IL_FALSE;
-					}
-
-					if (Same)
-						((ILfloat*)NewData)[j+3] = 0.0f;
-					else
-						((ILfloat*)NewData)[j+3] = 1.0f;
-				}
+				((ILfloat*)NewData)[j+3] = Same ? 0.0f : 1.0f;
 				break;
-
 			case IL_DOUBLE:
-				for (; i < Size; i += Image->Bpp, j += NewBpp) {
-					((ILdouble*)NewData)[j]   = ((ILdouble*)Image->Data)[i];
-					((ILdouble*)NewData)[j+1] = ((ILdouble*)Image->Data)[i+1];
-					((ILdouble*)NewData)[j+2] = ((ILdouble*)Image->Data)[i+2];
-					Same = IL_TRUE;
-					for (c = 0; c < Image->Bpp; c++) {
-						if (((ILdouble*)Image->Data)[i+c] != KeyColour[c])
-							Same = IL_FALSE;
-					}
-
-					if (Same)
-						((ILdouble*)NewData)[j+3] = 0.0;
-					else
-						((ILdouble*)NewData)[j+3] = 1.0;
-				}
+				((ILdouble*)NewData)[j+3] = Same ? 0.0 : 1.0;
 				break;
-
-			default:
-				ifree(NewData);
-				ilSetError(IL_INTERNAL_ERROR);
-				return IL_FALSE;
-		}
-
-
-		Image->Bpp = NewBpp;
-		Image->Bps = Image->Width * Image->Bpc * NewBpp;
-		Image->SizeOfPlane = Image->Bps * Image->Height;
-		Image->SizeOfData = Image->SizeOfPlane * Image->Depth;
-		ifree(Image->Data);
-		Image->Data = NewData;
-
-		switch (Image->Format)
-		{
-			case IL_RGB:
-				Image->Format = IL_RGBA;
+			case IL_HALF:
+				((ILushort*)NewData)[j+3] = Same ? 0 : 0x3C00;
 				break;
-			case IL_BGR:
-				Image->Format = IL_BGRA;
+			default:
+				memset(NewData + (ILsizei)(j + 3) * Image->Bpc, Same ? 0 : 0xFF, Image->Bpc);
 				break;
 		}
 	}
-	else {  // IL_COLOUR_INDEX
-		if (Image->Bpp != 1) {
-			ilSetError(IL_INTERNAL_ERROR);
-			return IL_FALSE;
-		}
-
-		Size = ilGetInteger(IL_PALETTE_NUM_COLS);
-		if (Size == 0) {
-			ilSetError(IL_INTERNAL_ERROR);
-			return IL_FALSE;
-		}
-
-		if ((ILuint)(KeyAlpha * UCHAR_MAX) > Size) {
-			ilSetError(IL_INVALID_VALUE);
-			return IL_FALSE;
-		}
-
-		switch (Image->Pal.PalType)
-		{
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_RGBA32:
-				if (!ilConvertPal(IL_PAL_RGBA32))
-					return IL_FALSE;
-				break;
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-			case IL_PAL_BGRA32:
-				if (!ilConvertPal(IL_PAL_BGRA32))
-					return IL_FALSE;
-				break;
-			default:
-				ilSetError(IL_INTERNAL_ERROR);
-				return IL_FALSE;
-		}
-
-		// Set the colour index to be transparent.
-		Image->Pal.Palette[(ILuint)(KeyAlpha * UCHAR_MAX) * 4 + 3] = 0;
 
-		// @TODO: Check if this is the required behaviour.
-
-		if (Image->Pal.PalType == IL_PAL_RGBA32)
-			ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE);
-		else
-			ilConvertImage(IL_BGRA, IL_UNSIGNED_BYTE);
-	}
+	Image->Bpp = NewBpp;
+	Image->Bps = Image->Width * Image->Bpc * NewBpp;
+	Image->SizeOfPlane = Image->Bps * Image->Height;
+	Image->SizeOfData = Image->SizeOfPlane * Image->Depth;
+	ifree(Image->Data);
+	Image->Data = NewData;
+	Image->Format = Image->Format == IL_BGR ? IL_BGRA : IL_RGBA;
 
 	return IL_TRUE;
 }
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 77f7ece..060d491 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -629,7 +629,8 @@ void ILAPIENTRY ilInit()
 	
 	//ilSetMemory(NULL, NULL);  Now useless 3/4/2006 (due to modification in il_alloc.c)
 	iReleaseSession();  // Calls made before may have left something behind.
-	ilDefaultStates();  // Set states to their defaults.
+	ilDefaultStates();
+	ilKeyColour(0, 0, 0, 0);  // Set states to their defaults.
 	// Sets default file-reading callbacks.
 	ilResetRead();
 	ilResetWrite();
-- 
2.43.0


From 0f1a40def68d69886253257567dcb034f75cde84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 098/161] fix: tiff loading uses unset variables when tags are
 missing and accepts short strips

---
 DevIL/src-IL/src/il_tiff.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index e7f846b..7cc5505 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -320,6 +320,9 @@ ILboolean iLoadTiffInternal()
 			TIFFClose(tif);
 			return IL_FALSE;
 		}
+		// Tags that are missing from the file leave these as they are.
+		w = h = 0;
+		sampleinfo = NULL;
 		TIFFGetField(tif, TIFFTAG_IMAGEWIDTH,  &w);
 		TIFFGetField(tif, TIFFTAG_IMAGELENGTH, &h);
 
@@ -334,6 +337,8 @@ ILboolean iLoadTiffInternal()
 		//added 2003-08-31
 		//1 bpp tiffs are not neccessarily greyscale, they can
 		//have a palette (photometric == 3)...get this information
+		photometric = samplesperpixel >= 3 ? PHOTOMETRIC_RGB : PHOTOMETRIC_MINISBLACK;
+		planarconfig = PLANARCONFIG_CONTIG;
 		TIFFGetFieldDefaulted(tif, TIFFTAG_PHOTOMETRIC,  &photometric);
 		TIFFGetFieldDefaulted(tif, TIFFTAG_PLANARCONFIG, &planarconfig);
 
@@ -414,7 +419,7 @@ ILboolean iLoadTiffInternal()
 				}
 			}
 
-			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			TIFFGetFieldDefaulted(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
@@ -435,7 +440,7 @@ ILboolean iLoadTiffInternal()
 					else
 						linesread = rowsperstrip;
 
-					if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) == -1) {
+					if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) != stripsize) {
 						ilSetError(IL_LIB_TIFF_ERROR);
 						ifree(strip);
 						TIFFClose(tif);
@@ -473,7 +478,7 @@ ILboolean iLoadTiffInternal()
 					else
 						linesread = rowsperstrip;
 
-					if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) == -1) {
+					if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) != stripsize) {
 						ilSetError(IL_LIB_TIFF_ERROR);
 						ifree(strip);
 						TIFFClose(tif);
@@ -542,7 +547,7 @@ ILboolean iLoadTiffInternal()
 				Image->Format = samplesperpixel == 4 ? IL_RGBA : IL_RGB;
 			}
 
-			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			TIFFGetFieldDefaulted(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
@@ -563,7 +568,7 @@ ILboolean iLoadTiffInternal()
 				else
 					linesread = rowsperstrip;
 
-				if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) == -1) {
+				if (TIFFReadEncodedStrip(tif, TIFFComputeStrip(tif, y, 0), strip, stripsize) != stripsize) {
 					ilSetError(IL_LIB_TIFF_ERROR);
 					ifree(strip);
 					TIFFClose(tif);
-- 
2.43.0


From f1a3c66d05d96e6a50b95dd9c187ba789eb08011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 099/161] fix: hdr loader reads and writes outside its
 scanline, hangs and returns unset pixels on damaged files

---
 DevIL/src-IL/include/il_hdr.h |  2 +-
 DevIL/src-IL/src/il_hdr.cpp   | 94 +++++++++++++++++++----------------
 2 files changed, 53 insertions(+), 43 deletions(-)

diff --git a/DevIL/src-IL/include/il_hdr.h b/DevIL/src-IL/include/il_hdr.h
index 2c30b0a..5f22cb0 100644
--- a/DevIL/src-IL/include/il_hdr.h
+++ b/DevIL/src-IL/include/il_hdr.h
@@ -38,6 +38,6 @@ ILboolean ilLoadHdrF(ILHANDLE file);
 ILboolean iLoadHdrInternal();
 ILboolean iSaveHdrInternal();
 
-void ReadScanline(ILubyte *scanline, ILuint w);
+ILboolean ReadScanline(ILubyte *scanline, ILuint w);
 
 #endif//HDR_H
diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index 47c9579..da9ed82 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -73,7 +73,8 @@ ILboolean iGetHdrHead(HDRHEADER *Header)
 	char buff[81]; // 01-19-2009: Added space for the '\0'.
 	ILuint count = 0;
 
-	iread(Header->Signature, 1, 10);
+	if (iread(Header->Signature, 1, 10) != 10)
+		return IL_FALSE;
 
 	//skip lines until an empty line is found.
 	//this marks the end of header information,
@@ -117,9 +118,10 @@ ILboolean iGetHdrHead(HDRHEADER *Header)
 	//"+X" after the following line)
 	
 	// The 2 has to be in the %s format specifier to prevent buffer overruns.
-	sscanf(buff, "%2s %d %2s %d", y, &Header->Height, x, &Header->Width);
+	if (sscanf(buff, "%2s %u %2s %u", y, &Header->Height, x, &Header->Width) != 4)
+		return IL_FALSE;
 
-	return IL_TRUE;
+	return Header->Width != 0 && Header->Height != 0;
 }
 
 
@@ -225,9 +227,18 @@ ILboolean iLoadHdrInternal()
 		iPreCache(iCurImage->Width / 8 * iCurImage->Height);
 
 	data = (ILfloat*)iCurImage->Data;
-	scanline = (ILubyte*)ialloc(Header.Width*4);
+	scanline = (ILubyte*)ialloc((ILsizei)Header.Width*4);
+	if (scanline == NULL) {
+		iUnCache();
+		return IL_FALSE;
+	}
 	for (i = 0; i < Header.Height; ++i) {
-		ReadScanline(scanline, Header.Width);
+		if (!ReadScanline(scanline, Header.Width)) {
+			iUnCache();
+			ifree(scanline);
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
+		}
 
 		//convert hdrs internal format to floats
 		for (j = 0; j < 4*Header.Width; j += 4) {
@@ -260,34 +271,36 @@ ILboolean iLoadHdrInternal()
 	return ilFixImage();
 }
 
-void ReadScanline(ILubyte *scanline, ILuint w) {
-	ILubyte *runner;
-	ILuint r, g, b, e, read, shift;
+// Reads one scanline, returns IL_FALSE when it is cut off or damaged.
+ILboolean ReadScanline(ILubyte *scanline, ILuint w) {
+	ILubyte *runner, p[4];
+	ILuint read, shift, j, k;
+	ILint t, val;
 
-	r = igetc();
-	g = igetc();
-	b = igetc();
-	e = igetc();
+	if (iread(p, 1, 4) != 4)
+		return IL_FALSE;
 
 	//check if the scanline is in the new format
 	//if so, e, r, g, g are stored separated and are
-	//rle-compressed independently.
-	if (r == 2 && g == 2) {
-		ILuint length = (b << 8) | e;
-		ILuint j, t, k;
-		if (length > w)
-			length = w; //fix broken files
+	//rle-compressed independently. Only scanlines of these widths can be.
+	if (w >= 8 && w <= 0x7FFF && p[0] == 2 && p[1] == 2 && p[2] < 128) {
+		if (((ILuint)p[2] << 8 | p[3]) != w)
+			return IL_FALSE;
 		for (k = 0; k < 4; ++k) {
 			runner = scanline + k;
 			j = 0;
-			while (j < length) {
+			while (j < w) {
 				t = igetc();
+				if (t == IL_EOF)
+					return IL_FALSE;
 				if (t > 128) { //Run?
-					ILubyte val = igetc();
+					val = igetc();
+					if (val == IL_EOF)
+						return IL_FALSE;
 					t &= 127;
 					//copy current byte
-					while (t > 0 && j < length) {
-						*runner = val;
+					while (t > 0 && j < w) {
+						*runner = (ILubyte)val;
 						runner += 4;
 						--t;
 						++j;
@@ -295,8 +308,11 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				}
 				else { //No Run.
 					//read new bytes
-					while (t > 0 && j < length) {
-						*runner = igetc();
+					while (t > 0 && j < w) {
+						val = igetc();
+						if (val == IL_EOF)
+							return IL_FALSE;
+						*runner = (ILubyte)val;
 						runner += 4;
 						--t;
 						++j;
@@ -304,27 +320,20 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				}
 			}
 		}
-		return; //done decoding a scanline in separated format
+		return IL_TRUE; //done decoding a scanline in separated format
 	}
 
 	//if we come here, we are dealing with old-style scanlines
 	shift = 0;
 	read = 0;
 	runner = scanline;
-	while (read < w) {
-		if (read != 0) {
-			r = igetc();
-			g = igetc();
-			b = igetc();
-			e = igetc();
-		}
-
+	for (;;) {
 		//if all three mantissas are 1, then this is a rle
 		//count dword
-		if (r == 1 && g == 1 && b == 1) {
-			ILuint length = e;
-			ILuint j;
-			for (j = length << shift; j > 0 && read < w; --j) {
+		if (p[0] == 1 && p[1] == 1 && p[2] == 1) {
+			if (read == 0 || shift > 24)
+				return IL_FALSE; //nothing to repeat
+			for (j = (ILuint)p[3] << shift; j > 0 && read < w; --j) {
 				memcpy(runner, runner - 4, 4);
 				runner += 4;
 				++read;
@@ -336,16 +345,17 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 			shift += 8;
 		}
 		else {
-			runner[0] = r;
-			runner[1] = g;
-			runner[2] = b;
-			runner[3] = e;
-
+			memcpy(runner, p, 4);
 			shift = 0;
 			runner += 4;
 			++read;
 		}
+		if (read >= w)
+			break;
+		if (iread(p, 1, 4) != 4)
+			return IL_FALSE;
 	}
+	return IL_TRUE;
 }
 
 
-- 
2.43.0


From be7f895332a7068803d76e7d2bd1dfffada43e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:34 +0000
Subject: [PATCH 100/161] fix: keep the image stack usable and loss-free when
 memory runs out

---
 DevIL/src-IL/src/il_devil.cpp |  7 ++-
 DevIL/src-IL/src/il_stack.cpp | 85 +++++++++++++++++++++--------------
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 63cb230..0c321e4 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -978,8 +978,11 @@ ILuint ILAPIENTRY ilCloneCurImage()
 	CurName = ilGetCurName();
 	
 	ilBindImage(Id);
-	ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data);
-	ilCopyImageAttr(iCurImage, CurImage);
+	if (!ilTexImage_(iCurImage, CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data)
+		|| !ilCopyImageAttr(iCurImage, CurImage)) {
+		ilDeleteImages(1, &Id);
+		Id = 0;
+	}
 	
 	ilBindImage(CurName);
 	iCurImage = CurImage;
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 060d491..973e249 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -50,31 +50,34 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 {
 	ILsizei	Index = 0;
 	iFree	*TempFree = FreeNames;
+	ILimage	*Image;
 
 	if (Num < 1 || Images == NULL) {
 		ilSetError(IL_INVALID_VALUE);
 		return;
 	}
 
-	// No images have been generated yet, so create the image stack.
-	if (ImageStack == NULL)
-		if (!iEnlargeStack())
-			return;
-
 	do {
+		Images[Index] = 0;  // Stays like this when there is not enough memory.
+
+		// No images have been generated yet, so create the image stack.
+		if (ImageStack == NULL || LastUsed >= StackSize)
+			if (!iEnlargeStack())
+				continue;
+		// Must be all 1's instead of 0's, because some functions would divide by 0.
+		Image = ilNewImage(1, 1, 1, 1, 1);
+		if (Image == NULL)
+			continue;
+
 		if (FreeNames != NULL) {  // If any have been deleted, then reuse their image names.
                         TempFree = (iFree*)FreeNames->Next;
                         Images[Index] = FreeNames->Name;
-                        ImageStack[FreeNames->Name] = ilNewImage(1, 1, 1, 1, 1);
+                        ImageStack[FreeNames->Name] = Image;
                         ifree(FreeNames);
                         FreeNames = TempFree;
 		} else {
-                        if (LastUsed >= StackSize)
-				if (!iEnlargeStack())
-					return;
 			Images[Index] = LastUsed;
-			// Must be all 1's instead of 0's, because some functions would divide by 0.
-			ImageStack[LastUsed] = ilNewImage(1, 1, 1, 1, 1);
+			ImageStack[LastUsed] = Image;
 			LastUsed++;
 		}
 	} while (++Index < Num);
@@ -107,6 +110,8 @@ void ILAPIENTRY ilBindImage(ILuint Image)
 
 	if (ImageStack[Image] == NULL) {
 		ImageStack[Image] = ilNewImage(1, 1, 1, 1, 1);
+		if (ImageStack[Image] == NULL)
+			return;  // What was bound stays bound.
 		iUseFreeName(Image);
 		if (Image >= LastUsed) // >= ?
 			LastUsed = Image + 1;
@@ -182,7 +187,7 @@ void ILAPIENTRY ilDeleteImages(ILsizei Num, const ILuint *Images)
 			// Add to head of list - works for empty and non-empty lists
 			Temp = (iFree*)ialloc(sizeof(iFree));
 			if (!Temp) {
-				return;
+				continue;  // The name just does not get reused.
 			}
 			Temp->Name = Images[Index];
 			Temp->Next = FreeNames;
@@ -474,24 +479,8 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 	switch (Type)
 	{
 		case IL_SUB_NEXT:
-			if (iCurImage->Next)
-				ilCloseImage(iCurImage->Next);
-			iCurImage->Next = ilNewImage(1, 1, 1, 1, 1);
-			SubImage = iCurImage->Next;
-			break;
-
 		case IL_SUB_MIPMAP:
-			if (iCurImage->Mipmaps)
-				ilCloseImage(iCurImage->Mipmaps);
-			iCurImage->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
-			SubImage = iCurImage->Mipmaps;
-			break;
-
 		case IL_SUB_LAYER:
-			if (iCurImage->Layers)
-				ilCloseImage(iCurImage->Layers);
-			iCurImage->Layers = ilNewImage(1, 1, 1, 1, 1);
-			SubImage = iCurImage->Layers;
 			break;
 
 		default:
@@ -499,10 +488,29 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 			return IL_FALSE;
 	}
 
+	SubImage = ilNewImage(1, 1, 1, 1, 1);
 	if (SubImage == NULL) {
 		return 0;
 	}
 
+	switch (Type)
+	{
+		case IL_SUB_NEXT:
+			ilCloseImage(iCurImage->Next);
+			iCurImage->Next = SubImage;
+			break;
+
+		case IL_SUB_MIPMAP:
+			ilCloseImage(iCurImage->Mipmaps);
+			iCurImage->Mipmaps = SubImage;
+			break;
+
+		case IL_SUB_LAYER:
+			ilCloseImage(iCurImage->Layers);
+			iCurImage->Layers = SubImage;
+			break;
+	}
+
 	// Every kind of chain has its own link.
 	for (Count = 1; Count < Num; Count++) {
 		ILimage *NewImage = ilNewImage(1, 1, 1, 1, 1);
@@ -602,9 +610,11 @@ ILboolean iEnlargeStack()
 		OnExit = IL_TRUE;
 	}
 
-	if (!(ImageStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*)))) {
+	ILimage **NewStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*));
+	if (NewStack == NULL) {
 		return IL_FALSE;
 	}
+	ImageStack = NewStack;
 	StackSize += I_STACK_INCREMENT;
 	return IL_TRUE;
 }
@@ -645,6 +655,10 @@ void ILAPIENTRY ilInit()
 	//ilShutDown();
 	iSetImage0();  // Beware!  Clears all existing textures!
 	iBindImageTemp();  // Go ahead and create the temporary image.
+	if (ImageStack == NULL || ImageStack[0] == NULL || ImageStack[1] == NULL) {
+		iReleaseSession();  // Not enough memory.
+		return;
+	}
 	IsInit = IL_TRUE;
 	return;
 }
@@ -709,7 +723,8 @@ void iSetImage0()
 	if (!ImageStack[0])
 		ImageStack[0] = ilNewImage(1, 1, 1, 1, 1);
 	iCurImage = ImageStack[0];
-	ilDefaultImage();
+	if (iCurImage != NULL)
+		ilDefaultImage();
 
 	return;
 }
@@ -721,14 +736,16 @@ ILAPI void ILAPIENTRY iBindImageTemp()
 		if (!iEnlargeStack())
 			return;
 
-	if (LastUsed < 2)
-		LastUsed = 2;
-	CurName = 1;
-	ParentImage = IL_TRUE;
 	if (!ImageStack[1]) {
 		ImageStack[1] = ilNewImage(1, 1, 1, 1, 1);
+		if (ImageStack[1] == NULL)
+			return;
 		iUseFreeName(1);
 	}
+	if (LastUsed < 2)
+		LastUsed = 2;
+	CurName = 1;
+	ParentImage = IL_TRUE;
 	iCurImage = ImageStack[1];
 
 	return;
-- 
2.43.0


From 47f4da1304c50355b582f1c8561f7bdb8d37fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:34 +0000
Subject: [PATCH 101/161] fix: survive refused allocations in string, palette
 and cache code; write the PNG title; stop TGA RLE at end of data

---
 DevIL/src-IL/include/il_internal.h |  1 +
 DevIL/src-IL/src/il_files.cpp      |  9 +++++++--
 DevIL/src-IL/src/il_neuquant.cpp   |  7 ++++---
 DevIL/src-IL/src/il_png.cpp        | 12 ++++++++----
 DevIL/src-IL/src/il_quantizer.cpp  | 12 ++++++++----
 DevIL/src-IL/src/il_states.cpp     |  8 ++++++++
 DevIL/src-IL/src/il_targa.cpp      | 15 +++++++++++----
 DevIL/src-IL/src/il_tiff.cpp       | 30 +++++++++++++++++++++++++-----
 DevIL/src-IL/src/il_utility.cpp    |  4 +---
 9 files changed, 73 insertions(+), 25 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index a8f6e24..26a5891 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -214,6 +214,7 @@ ILboolean	ilSwapColours(void);
 ILboolean	iCopyPalette(ILpal *Dest, ILpal *Src);
 // Miscellaneous functions
 char*		iGetString(ILenum StringName);  // Internal version of ilGetString
+ILboolean	iCopyString(ILenum StringName, char **String);
 
 //
 // Image loading/saving functions
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 15b7203..e7b079b 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -461,7 +461,7 @@ ILint ILAPIENTRY iGetcFile(void)
 	}
 	if (CachePos >= CacheValid) {
 		if (!iPreCache(CacheSize))
-			return IL_EOF;
+			return GetcProc(FileRead);  // No memory, so go on without a cache.
 		if (CacheValid == 0) {
 			ilSetError(IL_FILE_READ_ERROR);
 			return IL_EOF;
@@ -498,7 +498,12 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 
 	while (TotalBytes < BuffSize) {
 		if (CachePos >= CacheValid) {
-			if (!iPreCache(CacheSize) || CacheValid == 0)
+			if (!iPreCache(CacheSize)) {
+				// No memory, so go on without a cache.
+				TotalBytes += ReadProc((ILubyte*)Buffer + TotalBytes, 1, BuffSize - TotalBytes, FileRead);
+				break;
+			}
+			if (CacheValid == 0)
 				break;  // End of the file
 		}
 
diff --git a/DevIL/src-IL/src/il_neuquant.cpp b/DevIL/src-IL/src/il_neuquant.cpp
index d6ae649..6f4b466 100644
--- a/DevIL/src-IL/src/il_neuquant.cpp
+++ b/DevIL/src-IL/src/il_neuquant.cpp
@@ -400,7 +400,7 @@ void learn()
 
 // In il_quantizer.cpp
 void iSetQuantized(ILimage *Image, ILubyte *Data, ILubyte *Palette, ILuint PalSize);
-ILimage *iExactPalette(ILimage *Image, ILubyte *Data, ILuint Red, ILuint Blue, ILuint NumCols);
+ILimage *iExactPalette(ILimage *Image, ILubyte *Data, ILuint Red, ILuint Blue, ILuint NumCols, ILboolean *TooMany);
 
 
 ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
@@ -408,6 +408,7 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
 	ILimage	*TempImage, *NewImage;
 	ILubyte	*NewData, *Palette;
 	ILuint	sample, i, j;
+	ILboolean	TooMany;
 
 	netsizethink=NumCols;
 
@@ -420,8 +421,8 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
 	if (TempImage == NULL)
 		return NULL;
 
-	NewImage = iExactPalette(Image, TempImage->Data, 2, 0, NumCols);
-	if (NewImage != NULL) {
+	NewImage = iExactPalette(Image, TempImage->Data, 2, 0, NumCols, &TooMany);
+	if (NewImage != NULL || !TooMany) {
 		ilCloseImage(TempImage);
 		return NewImage;
 	}
diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index d92773e..27c8215 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -494,6 +494,7 @@ ILboolean iSavePngInternal()
 	png_structp png_ptr;
 	png_infop	info_ptr;
 	png_text	text[4];
+	ILboolean	StringsOk;
 	ILenum		PngType;
 	ILuint		BitDepth, i, j;
 	ILubyte 	** volatile RowPtr = NULL;  // Used after a longjmp()
@@ -667,15 +668,16 @@ ILboolean iSavePngInternal()
 	text[0].text = (png_charp)"Generated by the Developer's Image Library (DevIL)";
 	text[0].compression = PNG_TEXT_COMPRESSION_NONE;
 	text[1].key = (png_charp)"Author";
-	text[1].text = (png_charp)iGetString(IL_PNG_AUTHNAME_STRING);  // Will not actually be modified!
+	StringsOk = iCopyString(IL_PNG_AUTHNAME_STRING, &text[1].text);
 	text[1].compression = PNG_TEXT_COMPRESSION_NONE;
 	text[2].key = (png_charp)"Description";
-	text[2].text = iGetString(IL_PNG_DESCRIPTION_STRING);
+	StringsOk = iCopyString(IL_PNG_DESCRIPTION_STRING, &text[2].text) && StringsOk;
 	text[2].compression = PNG_TEXT_COMPRESSION_NONE;
 	text[3].key = (png_charp)"Title";
-	text[3].text = iGetString(IL_PNG_TITLE_STRING);
+	StringsOk = iCopyString(IL_PNG_TITLE_STRING, &text[3].text) && StringsOk;
 	text[3].compression = PNG_TEXT_COMPRESSION_NONE;
-	png_set_text(png_ptr, info_ptr, text, 3);
+	if (StringsOk)
+		png_set_text(png_ptr, info_ptr, text, 4);
 
 	// Free up our user-defined text: png_set_text() has made its own copy.
 	if (text[1].text)
@@ -684,6 +686,8 @@ ILboolean iSavePngInternal()
 		ifree(text[2].text);
 	if (text[3].text)
 		ifree(text[3].text);
+	if (!StringsOk)
+		goto error_label;
 
 	// Write the file header information.  REQUIRED.
 	png_write_info(png_ptr, info_ptr);
diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 0241740..47f6876 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -426,12 +426,13 @@ void iSetQuantized(ILimage *Image, ILubyte *Data, ILubyte *Palette, ILuint PalSi
 
 // Makes a palette image (BGR24) of Data, which has Channels 8-bit channels per pixel in the order
 //  given by Red and Blue, when it has no more than NumCols colours.  Returns NULL if it has more.
-ILimage *iExactPalette(ILimage *Image, ILubyte *Data, ILuint Red, ILuint Blue, ILuint NumCols)
+ILimage *iExactPalette(ILimage *Image, ILubyte *Data, ILuint Red, ILuint Blue, ILuint NumCols, ILboolean *TooMany)
 {
 	ILimage	*NewImage;
 	ILubyte	*Palette, *NewData;
 	ILuint	NumPix = Image->Width * Image->Height * Image->Depth, Pix, Col, Used = 0;
 
+	*TooMany = IL_FALSE;
 	if (NumCols > 256)
 		NumCols = 256;
 	NewImage = (ILimage*)icalloc(sizeof(ILimage), 1);
@@ -447,8 +448,10 @@ ILimage *iExactPalette(ILimage *Image, ILubyte *Data, ILuint Red, ILuint Blue, I
 					break;
 			}
 			if (Col == Used) {
-				if (Used == NumCols)
+				if (Used == NumCols) {
+					*TooMany = IL_TRUE;
 					goto failed;
+				}
 				Palette[Col * 3] = Data[Blue];
 				Palette[Col * 3 + 1] = Data[1];
 				Palette[Col * 3 + 2] = Data[Red];
@@ -485,6 +488,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	ILimage	*TempImage = NULL, *NewImage = NULL;
 	ILubyte	*Ir = NULL, *Ig = NULL, *Ib = NULL;
 
+	ILboolean TooMany;
 	ILint num_alloced_colors; // number of colors we allocated space for in palette, as NumCols but will not be less than 256
 
 	num_alloced_colors=NumCols;
@@ -501,8 +505,8 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	if (TempImage == NULL)
 		return NULL;
 
-	NewImage = iExactPalette(Image, TempImage->Data, 0, 2, NumCols);
-	if (NewImage != NULL) {
+	NewImage = iExactPalette(Image, TempImage->Data, 0, 2, NumCols, &TooMany);
+	if (NewImage != NULL || !TooMany) {
 		ilCloseImage(TempImage);
 		return NewImage;
 	}
diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index e8da99c..7f20ac8 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -270,6 +270,14 @@ char *iGetString(ILenum StringName)
 }
 
 
+// Like iGetString, but tells a string that is not set (*String is NULL) from a lack of memory (returns IL_FALSE).
+ILboolean iCopyString(ILenum StringName, char **String)
+{
+	*String = iGetString(StringName);
+	return *String != NULL || ilGetString(StringName) == NULL;
+}
+
+
 //! Enables a mode
 ILboolean ILAPIENTRY ilEnable(ILenum Mode)
 {
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index cd9fe0e..2fe091a 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -462,7 +462,12 @@ ILboolean iUncompressTgaData(ILimage *Image)
 		iPreCache(iCurImage->SizeOfData / 2);
 	
 	while (BytesRead < Size) {
-		Header = (ILubyte)igetc();
+		c = igetc();
+		if (c == IL_EOF) {
+			iUnCache();
+			return IL_FALSE;
+		}
+		Header = (ILubyte)c;
 		if (Header & BIT_7) {
 			ClearBits(Header, BIT_7);
 			if (iread(Color, 1, Image->Bpp) != Image->Bpp) {
@@ -605,9 +610,7 @@ ILuint ilSaveTargaL(void *Lump, ILuint Size)
 // Internal function used to save the Targa.
 ILboolean iSaveTargaInternal()
 {
-	const char	*ID = iGetString(IL_TGA_ID_STRING);
-	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
-	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
+	char		*ID = NULL, *AuthName = NULL, *AuthComment = NULL;
 	ILubyte 	IDLen = 0, UsePal, Type = 0, PalEntSize;
 	ILshort 	ColMapStart = 0, PalSize;
 	ILubyte		Temp;
@@ -629,6 +632,10 @@ ILboolean iSaveTargaInternal()
 		return IL_FALSE;
 	}
 	
+	if (!iCopyString(IL_TGA_ID_STRING, &ID) || !iCopyString(IL_TGA_AUTHNAME_STRING, &AuthName)
+		|| !iCopyString(IL_TGA_AUTHCOMMENT_STRING, &AuthComment))
+		goto cleanup;
+
 	if (iGetInt(IL_TGA_RLE) == IL_TRUE)
 		Compress = IL_TRUE;
 	else
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 7cc5505..d9080a1 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -966,7 +966,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	TIFF	*File;
 	char	Description[512];
 	ILimage *TempImage;
-	const char	*str;
+	char	*str;
 	ILubyte *OldData;
 
 	if(iCurImage == NULL) {
@@ -1056,26 +1056,46 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 		iGetString(IL_TIF_DOCUMENTNAME_STRING) ?
 		iGetString(IL_TIF_DOCUMENTNAME_STRING) : FileName);
 */
-	str = iGetString(IL_TIF_DOCUMENTNAME_STRING);
+	if (!iCopyString(IL_TIF_DOCUMENTNAME_STRING, &str)) {
+		TIFFClose(File);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
+		return IL_FALSE;
+	}
 	if (str) {
 		TIFFSetField(File, TIFFTAG_DOCUMENTNAME, str);
 		ifree(str);
 	}
 
 
-	str = iGetString(IL_TIF_AUTHNAME_STRING);
+	if (!iCopyString(IL_TIF_AUTHNAME_STRING, &str)) {
+		TIFFClose(File);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
+		return IL_FALSE;
+	}
 	if (str) {
 		TIFFSetField(File, TIFFTAG_ARTIST, str);
 		ifree(str);
 	}
 
-	str = iGetString(IL_TIF_HOSTCOMPUTER_STRING);
+	if (!iCopyString(IL_TIF_HOSTCOMPUTER_STRING, &str)) {
+		TIFFClose(File);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
+		return IL_FALSE;
+	}
 	if (str) {
 		TIFFSetField(File, TIFFTAG_HOSTCOMPUTER, str);
 		ifree(str);
 	}
 
-	str = iGetString(IL_TIF_DESCRIPTION_STRING);
+	if (!iCopyString(IL_TIF_DESCRIPTION_STRING, &str)) {
+		TIFFClose(File);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
+		return IL_FALSE;
+	}
 	if (str) {
 		TIFFSetField(File, TIFFTAG_IMAGEDESCRIPTION, str);
 		ifree(str);
diff --git a/DevIL/src-IL/src/il_utility.cpp b/DevIL/src-IL/src/il_utility.cpp
index e52480d..aae95bb 100644
--- a/DevIL/src-IL/src/il_utility.cpp
+++ b/DevIL/src-IL/src/il_utility.cpp
@@ -151,8 +151,7 @@ ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 	const ILuint blocks = size/block_size;
 	ILuint i;
 
-	ILubyte *block = (ILubyte*)ialloc(block_size);
-	if(block == NULL) return;
+	ILubyte block[4096];
 	for( i = 0; i < blocks; i++ ) {
 		memcpy(block,s1,block_size);
 		memcpy(s1,s2,block_size);
@@ -166,6 +165,5 @@ ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 		memcpy(s1,s2,i);
 		memcpy(s2,block,i);
 	}
-	ifree(block);
 	return;
 }
-- 
2.43.0


From 6453e4498154c447b117e8c30a38792fed24b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 102/161] fix: read OS/2 bitmaps shorter than a Windows bitmap
 header

---
 DevIL/src-IL/src/il_bmp.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 1fee517..11ebda7 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -117,15 +117,15 @@ ILboolean iIsValidBmp()
 	BMPHEAD		Head;
 	OS2_HEAD	Os2Head;
 	ILboolean	IsValid;
+	ILuint		Start = itell();
 
 	iGetBmpHead(&Head);
-	iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);  // Go ahead and restore to previous state
+	iseek(Start, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	IsValid = iCheckBmp(&Head);
 	if (!IsValid) {
-		iGetOS2Head(&Os2Head);
-		iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);
-		IsValid = iCheckOS2(&Os2Head);
+		IsValid = iGetOS2Head(&Os2Head) && iCheckOS2(&Os2Head);
+		iseek(Start, IL_SEEK_SET);
 	}
 	return IsValid;
 }
@@ -216,17 +216,20 @@ ILboolean iLoadBitmapInternal()
 	BMPHEAD		Header;
 	OS2_HEAD	Os2Head;
 	ILboolean	bBitmap;
+	ILuint		Start;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	Start = itell();
+	iQuietErrors(IL_TRUE);  // An OS/2 file may be shorter than this header.
 	iGetBmpHead(&Header);
+	iQuietErrors(IL_FALSE);
 	if (!iCheckBmp(&Header)) {
-		iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);
-		iGetOS2Head(&Os2Head);
-		if (!iCheckOS2(&Os2Head)) {
+		iseek(Start, IL_SEEK_SET);
+		if (!iGetOS2Head(&Os2Head) || !iCheckOS2(&Os2Head)) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
-- 
2.43.0


From 752a9194f84cfb79fbca70af701f6249cdf0a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:50 +0000
Subject: [PATCH 103/161] fix: read TIFF RGBA strips of any alpha kind without
 changing their colours

---
 DevIL/src-IL/src/il_tiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index d9080a1..9378a78 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -516,7 +516,7 @@ ILboolean iLoadTiffInternal()
 		}
 		//for 16bit rgb(a) images:
 		else if (((extrasamples == 0 && samplesperpixel == 3)
-				|| (extrasamples == 1 && samplesperpixel == 4 && bitspersample == 16 && sampleinfo[0] != EXTRASAMPLE_UNASSALPHA))
+				|| (extrasamples == 1 && samplesperpixel == 4))
 			&& (bitspersample == 8 || bitspersample == 16)
 			&& photometric == PHOTOMETRIC_RGB
 			&& planarconfig == 1
-- 
2.43.0


From 44d55ea4349c2e97c10ac113aae21c9bc55cabfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 104/161] fix: show GIF frames as the disposal, transparency
 and local palettes say; decode all LZW streams

---
 DevIL/src-IL/include/il_gif.h |   6 +-
 DevIL/src-IL/src/il_gif.cpp   | 814 +++++++++++++++-------------------
 2 files changed, 366 insertions(+), 454 deletions(-)

diff --git a/DevIL/src-IL/include/il_gif.h b/DevIL/src-IL/include/il_gif.h
index 98cc9e0..efb3579 100644
--- a/DevIL/src-IL/include/il_gif.h
+++ b/DevIL/src-IL/include/il_gif.h
@@ -61,11 +61,9 @@ typedef struct GFXCONTROL
 ILboolean iLoadGifInternal(void);
 ILboolean ilLoadGifF(ILHANDLE File);
 ILboolean iIsValidGif(void);
-ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *PrevImage);
+ILboolean iGetPalette(ILubyte Info, ILpal *Pal);
 ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead);
 ILboolean SkipExtensions(GFXCONTROL *Gfx);
-ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx);
-ILboolean RemoveInterlace(ILimage *image);
-ILboolean ConvertTransparent(ILimage *Image, ILubyte TransColour);
+ILboolean GifGetData(ILubyte *Data, ILuint NumPix);
 
 #endif//GIF_H
diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index 88862ce..971c0c4 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -133,8 +133,9 @@ ILboolean ilLoadGifL(const void *Lump, ILuint Size)
 // Internal function used to load the Gif.
 ILboolean iLoadGifInternal()
 {
-	GIFHEAD	Header;
-	ILpal	GlobalPal;
+	GIFHEAD		Header;
+	ILpal		GlobalPal;
+	ILboolean	bRet;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -145,13 +146,14 @@ ILboolean iLoadGifInternal()
 	GlobalPal.PalSize = 0;
 
 	//read header
-	iread(&Header.Sig, 1, 6);
-  	Header.Width = GetLittleUShort();
-    Header.Height = GetLittleUShort();
+	if (iread(&Header.Sig, 1, 6) != 6)
+		return IL_FALSE;
+	Header.Width = GetLittleUShort();
+	Header.Height = GetLittleUShort();
 	Header.ColourInfo = igetc();
 	Header.Background = igetc();
 	Header.Aspect = igetc();
-		  
+
 	if (!strnicmp(Header.Sig, "GIF87A", 6)) {
 		GifType = GIF87A;
 	}
@@ -163,62 +165,41 @@ ILboolean iLoadGifInternal()
 		return IL_FALSE;
 	}
 
+	if (Header.Width == 0 || Header.Height == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	// Check for a global colour map.
 	if (Header.ColourInfo & (1 << 7)) {
-		if (!iGetPalette(Header.ColourInfo, &GlobalPal, IL_FALSE, NULL)) {
+		if (!iGetPalette(Header.ColourInfo, &GlobalPal))
 			return IL_FALSE;
-		}
 	}
 
-	if (!GetImages(&GlobalPal, &Header))
-		return IL_FALSE;
-
-	if (GlobalPal.Palette && GlobalPal.PalSize)
-		ifree(GlobalPal.Palette);
-	GlobalPal.Palette = NULL;
-	GlobalPal.PalSize = 0;
+	bRet = GetImages(&GlobalPal, &Header);
+	ifree(GlobalPal.Palette);
 
+	if (!bRet)
+		return IL_FALSE;
 	return ilFixImage();
 }
 
 
-ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *PrevImage)
+// Reads a palette, whose size is given by the lower three bits of Info.
+ILboolean iGetPalette(ILubyte Info, ILpal *Pal)
 {
-	ILuint PalSize, PalOffset = 0;
-
-	// If we have a local palette and have to use the previous frame as well,
-	//  we have to copy the palette from the previous frame, in addition
-	//  to the data, which we copy in GetImages.
-
 	// The ld(palettes bpp - 1) is stored in the lower
 	// 3 bits of Info (weird gif format ... :) )
-	PalSize = (1 << ((Info & 0x7) + 1)) * 3;
-	if (UsePrevPal) {
-		if (PrevImage == NULL) {  // Cannot use the previous palette if it does not exist.
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-		}
-		PalSize = PalSize + PrevImage->Pal.PalSize;
-		PalOffset = PrevImage->Pal.PalSize;
-	}
-	if (PalSize > 256 * 3) {
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return IL_FALSE;
-	}
-	Pal->PalSize = PalSize;
-
+	Pal->PalSize = (1 << ((Info & 0x7) + 1)) * 3;
 	Pal->PalType = IL_PAL_RGB24;
-	//Pal->Palette = (ILubyte*)ialloc(Pal->PalSize);
-	Pal->Palette = (ILubyte*)ialloc(256 * 3);
+	Pal->Palette = (ILubyte*)icalloc(256, 3);
 	if (Pal->Palette == NULL)
 		return IL_FALSE;
-	if (UsePrevPal)
-		memcpy(Pal->Palette, PrevImage->Pal.Palette, PrevImage->Pal.PalSize);  // Copy the old palette over.
-	if (iread(Pal->Palette + PalOffset, 1, Pal->PalSize) != Pal->PalSize) {  // Read the new palette.
+	if (iread(Pal->Palette, 1, Pal->PalSize) != Pal->PalSize) {
 		ifree(Pal->Palette);
 		Pal->Palette = NULL;
 		return IL_FALSE;
@@ -228,156 +209,274 @@ ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *P
 }
 
 
-ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
+// The colours of the screen while the frames are put on it
+typedef struct GIFCOLOURS
 {
-	IMAGEDESC	ImageDesc, OldImageDesc;
-	GFXCONTROL	Gfx;
-	ILboolean	BaseImage = IL_TRUE;
-	ILimage		*Image = iCurImage, *TempImage = NULL, *PrevImage = NULL;
-	ILuint		NumImages = 0, i;
-	ILint		input;
-	ILuint		PalOffset;
-
-	OldImageDesc.ImageInfo = 0; // to initialize the data with an harmless value 
-	Gfx.Used = IL_TRUE;
-
-	while (!ieof()) {
-		ILubyte DisposalMethod = 1;
-		
-		i = itell();
-		if (!SkipExtensions(&Gfx))
-			goto error_clean;
-		i = itell();
+	ILubyte	Entry[256 * 4];
+	ILuint	Num;
+} GIFCOLOURS;
 
-		if (!Gfx.Used)
-			DisposalMethod = (Gfx.Packed & 0x1C) >> 2;
 
-		//read image descriptor
-		ImageDesc.Separator = igetc();
-		if (ImageDesc.Separator != 0x2C) //end of image
-			break;
+// Returns the entry that has a colour, adding it if needed.  When there is no room, the nearest one is used.
+static ILubyte GifColour(GIFCOLOURS *Colours, ILubyte *Rgb, ILubyte Alpha, ILubyte Try)
+{
+	ILuint	i, Best = 0, BestDist = 0xFFFFFFFF, Dist;
+	ILint	c, d;
+	ILubyte	*Entry = Colours->Entry + Try * 4;
+
+	// An entry that is transparent matches any other transparent one.
+	if (Try < Colours->Num && Entry[3] == Alpha && (!Alpha || !memcmp(Entry, Rgb, 3)))
+		return Try;
+	for (i = 0; i < Colours->Num; i++) {
+		Entry = Colours->Entry + i * 4;
+		if (Entry[3] != Alpha)
+			continue;
+		for (c = 0, Dist = 0; c < 3 && Alpha; c++) {
+			d = (ILint)Entry[c] - Rgb[c];
+			Dist += d * d;
+		}
+		if (Dist == 0)
+			return (ILubyte)i;
+		if (Dist < BestDist) {
+			BestDist = Dist;
+			Best = i;
+		}
+	}
+
+	if (Colours->Num < 256) {
+		Entry = Colours->Entry + Colours->Num * 4;
+		memcpy(Entry, Rgb, 3);
+		Entry[3] = Alpha;
+		return (ILubyte)Colours->Num++;
+	}
+
+	return (ILubyte)Best;
+}
+
+
+// Gives an image the colours of the screen.
+static ILboolean GifSetPalette(ILimage *Image, GIFCOLOURS *Colours)
+{
+	ILuint i, Bpp = 3;
+
+	for (i = 0; i < Colours->Num; i++) {
+		if (Colours->Entry[i * 4 + 3] == 0)
+			Bpp = 4;
+	}
+	Image->Pal.Palette = (ILubyte*)ialloc(IL_MAX(Colours->Num, 1) * Bpp);
+	if (Image->Pal.Palette == NULL)
+		return IL_FALSE;
+	for (i = 0; i < Colours->Num; i++) {
+		memcpy(Image->Pal.Palette + i * Bpp, Colours->Entry + i * 4, Bpp);
+	}
+	Image->Pal.PalSize = Colours->Num * Bpp;
+	Image->Pal.PalType = Bpp == 4 ? IL_PAL_RGBA32 : IL_PAL_RGB24;
+
+	return IL_TRUE;
+}
+
+
+ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
+{
+	IMAGEDESC	ImageDesc;
+	GFXCONTROL	Gfx;
+	GIFCOLOURS	Colours;
+	ILimage		*Image = NULL;
+	ILpal		LocalPal, *Pal;
+	ILubyte		*Frame = NULL, *Saved = NULL, *Data, Fill, Index;
+	ILubyte		*Map = NULL;  // Entry of the screen for each entry of the frame (after 256 flags)
+	ILubyte		Disposal = 0;  // What to do with the last frame before the next one is shown
+	ILboolean	BaseImage = IL_TRUE, Transparent, LastTransparent = IL_FALSE, Whole;
+	ILuint		i, x, y, Row, Num, NumPix, LastX = 0, LastY = 0, LastW = 0, LastH = 0;
+	ILint		Separator, Size;
+	static const ILuint	Start[] = { 0, 4, 2, 1 }, Step[] = { 8, 8, 4, 2 };
+
+	LocalPal.Palette = NULL;
+	Colours.Num = 0;
+
+	while (1) {
+		Gfx.Used = IL_TRUE;
 		// Running into the end of the file here just ends the list of images.
 		iQuietErrors(IL_TRUE);
+		if (!SkipExtensions(&Gfx)) {
+			iQuietErrors(IL_FALSE);
+			break;
+		}
+		Separator = igetc();
+		if (Separator != 0x2C) { //end of image
+			iQuietErrors(IL_FALSE);
+			break;
+		}
 		ImageDesc.OffX = GetLittleUShort();
 		ImageDesc.OffY = GetLittleUShort();
 		ImageDesc.Width = GetLittleUShort();
 		ImageDesc.Height = GetLittleUShort();
 		ImageDesc.ImageInfo = igetc();
+		Size = igetc();  // Of the codes
 		iQuietErrors(IL_FALSE);
-
-		if (ieof())
+		if (Size == IL_EOF)
 			break;
+		iseek(-1, IL_SEEK_CUR);
 
+		// Check to see if the image has its own palette.
+		Pal = GlobalPal;
+		if (ImageDesc.ImageInfo & (1 << 7)) {
+			if (!iGetPalette(ImageDesc.ImageInfo, &LocalPal))
+				goto error_clean;
+			Pal = &LocalPal;
+		}
+		Num = Pal->Palette ? Pal->PalSize / 3 : 0;
+
+		NumPix = (ILuint)ImageDesc.Width * ImageDesc.Height;
+		Frame = (ILubyte*)ialloc(IL_MAX(NumPix, 1));
+		Map = (ILubyte*)icalloc(2, 256);
+		if (Frame == NULL || Map == NULL)
+			goto error_clean;
+		Num = IL_MIN(Num, 256);
 
-		if (!BaseImage) {
-			NumImages++;
-			Image->Next = ilNewImage(iCurImage->Width, iCurImage->Height, 1, 1, 1);
+		Transparent = (!Gfx.Used && (Gfx.Packed & 0x1));
+		// The pixels that are missing from the file keep this value.
+		memset(Frame, Transparent ? Gfx.Transparent : 0, NumPix);
+		if (!GifGetData(Frame, NumPix)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			goto error_clean;
+		}
+
+		Whole = (ImageDesc.OffX == 0 && ImageDesc.OffY == 0 && ImageDesc.Width >= GifHead->Width
+			&& ImageDesc.Height >= GifHead->Height && !Transparent && Disposal != 3
+			&& (Gfx.Used || ((Gfx.Packed & 0x1C) >> 2) != 3));
+
+		if (BaseImage) {
+			Image = iCurImage;
+			BaseImage = IL_FALSE;
+		}
+		else {
+			Image->Next = ilNewImage(GifHead->Width, GifHead->Height, 1, 1, 1);
 			if (Image->Next == NULL)
 				goto error_clean;
-			//20040612: DisposalMethod controls how the new images data is to be combined
-			//with the old image. 0 means that it doesn't matter how they are combined,
-			//1 means keep the old image, 2 means set to background color, 3 is
-			//load the image that was in place before the current (this is not implemented
-			//here! (TODO?))
-			if (DisposalMethod == 2 || DisposalMethod == 3)
-				//Note that this is actually wrong, too: If the image has a local
-				//color table, we should really search for the best fit of the
-				//background color table and use that index (?). Furthermore,
-				//we should only memset the part of the image that is not read
-				//later (if we are sure that no parts of the read image are transparent).
-				if (!Gfx.Used && Gfx.Packed & 0x1)
-					memset(Image->Next->Data, Gfx.Transparent, Image->SizeOfData);
-				else
-					memset(Image->Next->Data, GifHead->Background, Image->SizeOfData);
-			else if (DisposalMethod == 1 || DisposalMethod == 0)
+			// Put the screen into the state it has after the last frame is disposed of.
+			if (Disposal == 3 && Saved != NULL)
+				memcpy(Image->Next->Data, Saved, Image->SizeOfData);
+			else
 				memcpy(Image->Next->Data, Image->Data, Image->SizeOfData);
-			//Interlacing has to be removed after the image was copied (line above)
-			if (OldImageDesc.ImageInfo & (1 << 6)) {  // Image is interlaced.
-				if (!RemoveInterlace(Image))
-					goto error_clean;
+			if (Disposal == 2) {
+				Fill = GifHead->Background;
+				if (GlobalPal->Palette && (ILuint)Fill * 3 < GlobalPal->PalSize && !LastTransparent)
+					Fill = GifColour(&Colours, GlobalPal->Palette + Fill * 3, 255, Fill);
+				else
+					Fill = GifColour(&Colours, (ILubyte*)"\0\0\0", 0, 0);
+				for (y = LastY; y < GifHead->Height && y < LastY + LastH; y++) {
+					for (x = LastX; x < GifHead->Width && x < LastX + LastW; x++) {
+						Image->Next->Data[y * Image->Width + x] = Fill;
+					}
+				}
 			}
-
-			PrevImage = Image;
 			Image = Image->Next;
 			Image->Format = IL_COLOUR_INDEX;
 			Image->Origin = IL_ORIGIN_UPPER_LEFT;
-		} else {
-			BaseImage = IL_FALSE;
-			if (!Gfx.Used && Gfx.Packed & 0x1)
-				memset(Image->Data, Gfx.Transparent, Image->SizeOfData);
-			else
-			    memset(Image->Data, GifHead->Background, Image->SizeOfData);
 		}
-
 		Image->OffX = ImageDesc.OffX;
 		Image->OffY = ImageDesc.OffY;
-		PalOffset = 0;
 
-		// Check to see if the image has its own palette.
-		if (ImageDesc.ImageInfo & (1 << 7)) {
-			ILboolean UsePrevPal = IL_FALSE;
-			if (DisposalMethod == 1 && NumImages != 0) {  // Cannot be the first image for this.
-				PalOffset = PrevImage->Pal.PalSize;
-				UsePrevPal = IL_TRUE;
-			}
-			if (!iGetPalette(ImageDesc.ImageInfo, &Image->Pal, UsePrevPal, PrevImage)) {
+		// The next frame may have to put back what this one covers.
+		if (!Gfx.Used && ((Gfx.Packed & 0x1C) >> 2) == 3 && Image != iCurImage) {
+			if (Saved == NULL)
+				Saved = (ILubyte*)ialloc(Image->SizeOfData);
+			if (Saved == NULL)
 				goto error_clean;
+			memcpy(Saved, Image->Data, Image->SizeOfData);
+		}
+
+		if (Image == iCurImage || Whole) {
+			// Nothing remains of the last frames, so the colours are just those of the frame.
+			Colours.Num = Num;
+			for (i = 0; i < Num; i++) {
+				memcpy(Colours.Entry + i * 4, Pal->Palette + i * 3, 3);
+				Colours.Entry[i * 4 + 3] = 255;
 			}
-		} else {
-			if (!iCopyPalette(&Image->Pal, GlobalPal)) {
-				goto error_clean;
+			Fill = GifHead->Background;
+			if (Transparent) {
+				Fill = Gfx.Transparent;
+				for (; Colours.Num <= Fill; Colours.Num++) {
+					memcpy(Colours.Entry + Colours.Num * 4, "\0\0\0\377", 4);
+				}
+				Colours.Entry[Fill * 4 + 3] = 0;
+			}
+			else if (!Whole && GlobalPal->Palette && (ILuint)Fill * 3 < GlobalPal->PalSize) {
+				Fill = GifColour(&Colours, GlobalPal->Palette + Fill * 3, 255, Fill);
+			}
+			memset(Image->Data, Fill, Image->SizeOfData);
+			if (!Gfx.Used && ((Gfx.Packed & 0x1C) >> 2) == 3 && Image == iCurImage) {
+				if (Saved == NULL)
+					Saved = (ILubyte*)ialloc(Image->SizeOfData);
+				if (Saved == NULL)
+					goto error_clean;
+				memcpy(Saved, Image->Data, Image->SizeOfData);
+			}
+			for (i = 0; i < 256; i++) {
+				Map[i] = (ILubyte)i;
+				Map[256 + i] = 1;
 			}
 		}
 
-		if (!GifGetData(Image, Image->Data + ImageDesc.OffX + ImageDesc.OffY*Image->Width, Image->SizeOfData,
-				ImageDesc.Width, ImageDesc.Height, Image->Width, PalOffset, &Gfx)) {
-			memset(Image->Data, 0, Image->SizeOfData);  //@TODO: Remove this.  For debugging purposes right now.
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			goto error_clean;
+		Data = Frame;
+		for (i = 0; i < 4; i++) {
+			// Image is interlaced: the rows come in four passes.
+			Row = (ImageDesc.ImageInfo & (1 << 6)) ? Start[i] : 0;
+			for (; Row < ImageDesc.Height; Row += (ImageDesc.ImageInfo & (1 << 6)) ? Step[i] : 1) {
+				y = ImageDesc.OffY + Row;
+				for (x = 0; x < ImageDesc.Width && y < GifHead->Height && ImageDesc.OffX + x < GifHead->Width; x++) {
+					Index = Data[x];
+					if (Transparent && Index == Gfx.Transparent && Image != iCurImage)
+						continue;
+					if (!Map[256 + Index]) {
+						Map[256 + Index] = 1;
+						Map[Index] = GifColour(&Colours, Index < Num ? Pal->Palette + Index * 3 : (ILubyte*)"\0\0\0", 255, Index);
+					}
+					Image->Data[y * Image->Width + ImageDesc.OffX + x] = Map[Index];
+				}
+				Data += ImageDesc.Width;
+			}
+			if (!(ImageDesc.ImageInfo & (1 << 6)))
+				break;
 		}
 
+		if (!GifSetPalette(Image, &Colours))
+			goto error_clean;
+
 		// See if there was a valid graphics control extension.
+		Disposal = 0;
 		if (!Gfx.Used) {
-			Gfx.Used = IL_TRUE;
 			Image->Duration = Gfx.Delay * 10;  // We want it in milliseconds.
-
-			// See if a transparent colour is defined.
-			if (Gfx.Packed & 1) {
-				if (!ConvertTransparent(Image, Gfx.Transparent)) {
-					goto error_clean;
-				}
-	    	}
+			Disposal = (Gfx.Packed & 0x1C) >> 2;
 		}
-		i = itell();
-		// Terminates each block.
-		if((input = igetc()) == IL_EOF)
-			goto error_clean;
-
-		if (input != 0x00)
-		    iseek(-1, IL_SEEK_CUR);
-		//	break;
-
-		OldImageDesc = ImageDesc;
+		LastX = ImageDesc.OffX;
+		LastY = ImageDesc.OffY;
+		LastW = ImageDesc.Width;
+		LastH = ImageDesc.Height;
+		LastTransparent = Transparent;
+
+		ifree(LocalPal.Palette);
+		LocalPal.Palette = NULL;
+		ifree(Frame);
+		Frame = NULL;
+		ifree(Map);
+		Map = NULL;
 	}
 
-	//Deinterlace last image
-	if (OldImageDesc.ImageInfo & (1 << 6)) {  // Image is interlaced.
-		if (!RemoveInterlace(Image))
-			goto error_clean;
-	}
-
-	if (BaseImage)  // Was not able to load any images in...
+	ifree(Saved);
+	if (BaseImage) {  // Was not able to load any images in...
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 	return IL_TRUE;
 
 error_clean:
-	Image = iCurImage->Next;
-    /*	while (Image) {
-		TempImage = Image;
-		Image = Image->Next;
-		ilCloseImage(TempImage);
-	}*/
+	ifree(Saved);
+	ifree(LocalPal.Palette);
+	ifree(Frame);
+	ifree(Map);
 	return IL_FALSE;
 }
 
@@ -393,7 +492,7 @@ ILboolean SkipExtensions(GFXCONTROL *Gfx)
 	//	return IL_TRUE;  // No extensions in the GIF87a format.
 
 	do {
-		if((Code = igetc()) == IL_EOF)
+		if ((Code = igetc()) == IL_EOF)
 			return IL_FALSE;
 
 		if (Code != 0x21) {
@@ -401,7 +500,7 @@ ILboolean SkipExtensions(GFXCONTROL *Gfx)
 			return IL_TRUE;
 		}
 
-		if((Label = igetc()) == IL_EOF)
+		if ((Label = igetc()) == IL_EOF)
 			return IL_FALSE;
 
 		switch (Label)
@@ -411,28 +510,17 @@ ILboolean SkipExtensions(GFXCONTROL *Gfx)
 				Gfx->Packed = igetc();
 				Gfx->Delay = GetLittleUShort();
 				Gfx->Transparent = igetc();
-				Gfx->Terminator = igetc();
-				if (ieof())
+				if ((Size = igetc()) == IL_EOF)
 					return IL_FALSE;
+				Gfx->Terminator = Size;
 				Gfx->Used = IL_FALSE;
 				break;
-			/*case 0xFE:
-				break;
-
-			case 0x01:
-				break;*/
 			default:
 				do {
-					if((Size = igetc()) == IL_EOF)
+					if ((Size = igetc()) == IL_EOF)
 						return IL_FALSE;
 					iseek(Size, IL_SEEK_CUR);
-				} while (!ieof() && Size != 0);
-		}
-
-		// @TODO:  Handle this better.
-		if (ieof()) {
-			ilSetError(IL_FILE_READ_ERROR);
-			return IL_FALSE;
+				} while (Size != 0);
 		}
 	} while (1);
 
@@ -442,315 +530,141 @@ ILboolean SkipExtensions(GFXCONTROL *Gfx)
 
 #define MAX_CODES 4096
 
-ILint	curr_size, clear, ending, newcodes, top_slot, slot, navail_bytes = 0, nbits_left = 0;
-ILubyte	b1;
-ILubyte	byte_buff[257];
-ILubyte	*pbytes;
-ILubyte	*stack;
-ILubyte	*suffix;
-ILshort	*prefix;
+// The compressed data of an image
+typedef struct GIFSTREAM
+{
+	ILuint	Bits;		// Bits that are not used yet
+	ILint	NumBits;
+	ILint	BlockLeft;	// Bytes left in the block
+	ILboolean	End;	// The empty block at the end was read.
+	ILboolean	Error;	// The file ends before it.
+} GIFSTREAM;
 
-ILboolean success;
 
-ILuint code_mask[13] =
+static ILint GifGetByte(GIFSTREAM *Stream)
 {
-   0L,
-   0x0001L, 0x0003L,
-   0x0007L, 0x000FL,
-   0x001FL, 0x003FL,
-   0x007FL, 0x00FFL,
-   0x01FFL, 0x03FFL,
-   0x07FFL, 0x0FFFL
-};
-
-
-ILint get_next_code(void) {
-	ILint	i, t;
-	ILuint	ret;
-
-	//20050102: Tests for IL_EOF were added because this function
-	//crashed sometimes if igetc() returned IL_EOF
-	//(for example "table-add-column-before-active.gif" included in the
-	//mozilla source package)
-
-	if (!nbits_left) {
-		if (navail_bytes <= 0) {
-			pbytes = byte_buff;
-			navail_bytes = igetc();
-
-			if(navail_bytes == IL_EOF) {
-				success = IL_FALSE;
-				return ending;
-			}
-
-			if (navail_bytes) {
-				for (i = 0; i < navail_bytes; i++) {
-					if((t = igetc()) == IL_EOF) {
-						success = IL_FALSE;
-						return ending;
-					}
-					byte_buff[i] = t;
-				}
-			}
+	ILint c;
+
+	if (Stream->End || Stream->Error)
+		return IL_EOF;
+	if (Stream->BlockLeft == 0) {
+		Stream->BlockLeft = igetc();
+		if (Stream->BlockLeft == IL_EOF) {
+			Stream->Error = IL_TRUE;
+			return IL_EOF;
 		}
-		b1 = *pbytes++;
-		nbits_left = 8;
-		navail_bytes--;
-	}
-
-	ret = b1 >> (8 - nbits_left);
-	while (curr_size > nbits_left) {
-		if (navail_bytes <= 0) {
-			pbytes = byte_buff;
-			navail_bytes = igetc();
-
-			if(navail_bytes == IL_EOF) {
-				success = IL_FALSE;
-				return ending;
-			}
-
-			if (navail_bytes) {
-				for (i = 0; i < navail_bytes; i++) {
-					if((t = igetc()) == IL_EOF) {
-						success = IL_FALSE;
-						return ending;
-					}
-					byte_buff[i] = t;
-				}
-			}
+		if (Stream->BlockLeft == 0) {
+			Stream->End = IL_TRUE;
+			return IL_EOF;
 		}
-		b1 = *pbytes++;
-		ret |= b1 << nbits_left;
-		nbits_left += 8;
-		navail_bytes--;
 	}
-	nbits_left -= curr_size;
-
-	return (ret & code_mask[curr_size]);
+	Stream->BlockLeft--;
+	if ((c = igetc()) == IL_EOF)
+		Stream->Error = IL_TRUE;
+	return c;
 }
 
-static void cleanUpGifLoadState()
+
+// Returns IL_EOF when there are no more codes.
+static ILint GifGetCode(GIFSTREAM *Stream, ILint CodeSize)
 {
-	ifree(stack);
-	ifree(suffix);
-	ifree(prefix);
+	ILint c;
 
+	while (Stream->NumBits < CodeSize) {
+		if ((c = GifGetByte(Stream)) == IL_EOF)
+			return IL_EOF;
+		Stream->Bits |= (ILuint)c << Stream->NumBits;
+		Stream->NumBits += 8;
+	}
+	c = Stream->Bits & ((1 << CodeSize) - 1);
+	Stream->Bits >>= CodeSize;
+	Stream->NumBits -= CodeSize;
+	return c;
 }
 
-ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx)
+
+// Decompresses the pixels of an image, and skips what remains of its data.
+ILboolean GifGetData(ILubyte *Data, ILuint NumPix)
 {
-	ILubyte	*sp;
-	ILint	code, fc, oc;
-	ILubyte	DisposalMethod = 0;
-	ILint	c, size;
-	ILuint	i = 0, Read = 0, j = 0;
-	ILubyte	*DataPtr = Data;
-
-	if (!Gfx->Used)
-		DisposalMethod = (Gfx->Packed & 0x1C) >> 2;
-	if((size = igetc()) == IL_EOF)
+	GIFSTREAM	Stream;
+	ILubyte		*Stack, *Suffix;
+	ILushort	*Prefix;
+	ILint		Size, CodeSize, Clear, Slot, Code, In, Old = -1;
+	ILubyte		First = 0;
+	ILuint		Num = 0, Sp = 0;
+	ILboolean	bRet = IL_TRUE;
+
+	if ((Size = igetc()) == IL_EOF)
 		return IL_FALSE;
-
-	if (size < 2 || 9 < size) {
+	if (Size < 1 || Size > 8)
 		return IL_FALSE;
-	}
 
-	stack  = (ILubyte*)ialloc(MAX_CODES + 1);
-	suffix = (ILubyte*)ialloc(MAX_CODES + 1);
-	prefix = (ILshort*)ialloc(sizeof(*prefix) * (MAX_CODES + 1));
-	if (!stack || !suffix || !prefix)
-	{
-		cleanUpGifLoadState();
+	Stack  = (ILubyte*)ialloc(MAX_CODES + 1);
+	Suffix = (ILubyte*)icalloc(1, MAX_CODES + 1);
+	Prefix = (ILushort*)icalloc(sizeof(*Prefix), MAX_CODES + 1);
+	if (!Stack || !Suffix || !Prefix) {
+		ifree(Stack);
+		ifree(Suffix);
+		ifree(Prefix);
 		return IL_FALSE;
 	}
 
-	curr_size = size + 1;
-	top_slot = 1 << curr_size;
-	clear = 1 << size;
-	ending = clear + 1;
-	slot = newcodes = ending + 1;
-	navail_bytes = nbits_left = 0;
-	oc = fc = 0;
-	sp = stack;
-
-	while ((c = get_next_code()) != ending && Read < Height) {
-		if (c == clear)
-		{
-			curr_size = size + 1;
-			slot = newcodes;
-			top_slot = 1 << curr_size;
-			while ((c = get_next_code()) == clear);
-			if (c == ending)
-				break;
-			if (c >= slot)
-				c = 0;
-			oc = fc = c;
-
-			if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == c && (Gfx->Packed & 0x1) != 0)
-				i++;
-			else if (i < Width)
-				DataPtr[i++] = c + PalOffset;
-
-			if (i == Width)
-			{
-				DataPtr += Stride;
-				i = 0;
-				Read += 1;
-                ++j;
-                if (j >= Height) {
-                   cleanUpGifLoadState();
-                   return IL_FALSE;
-                }
-			}
+	memset(&Stream, 0, sizeof(Stream));
+	Clear = 1 << Size;
+	CodeSize = Size + 1;
+	Slot = Clear + 2;
+
+	while ((In = GifGetCode(&Stream, CodeSize)) != IL_EOF && In != Clear + 1) {
+		if (In == Clear) {
+			CodeSize = Size + 1;
+			Slot = Clear + 2;
+			Old = -1;
+			continue;
 		}
-		else
-		{
-			code = c;
-            //BG-2007-01-10: several fixes for incomplete GIFs
-			if (code >= slot)
-			{
-				code = oc;
-                if (sp >= stack + MAX_CODES) {
-                   cleanUpGifLoadState();
-                   return IL_FALSE;
-                }
-                *sp++ = fc;
-			}
-
-            if (code >= MAX_CODES)
-                return IL_FALSE; 
-                while (code >= newcodes)
-				{
-                    if (sp >= stack + MAX_CODES)
-					{
-                        cleanUpGifLoadState();
-                        return IL_FALSE;
-                    }
-                    *sp++ = suffix[code];
-                    code = prefix[code];
-                }
-            
-                if (sp >= stack + MAX_CODES) {
-                cleanUpGifLoadState();
-                return IL_FALSE;
-            }
-
-            *sp++ = (ILbyte)code;
-			if (slot < top_slot)
-			{
-				fc = code;
-				suffix[slot]   = fc;
-				prefix[slot++] = oc;
-				oc = c;
-			}
-			if (slot >= top_slot && curr_size < 12)
-			{
-				top_slot <<= 1;
-				curr_size++;
-			}
-			while (sp > stack)
-			{
-				sp--;
-				if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == *sp && (Gfx->Packed & 0x1) != 0)
-					i++;
-				else if (i < Width)
-					DataPtr[i++] = *sp + PalOffset;
-
-				if (i == Width)
-				{
-					i = 0;
-					Read += 1;
-                    j = (j+1) % Height;
-					// Needs to start from Data, not Image->Data.
-					DataPtr = Data + j * Stride;
-				}
-			}
+		if (In > Slot || (Old < 0 && In >= Clear)) {  // Not defined yet
+			bRet = IL_FALSE;
+			break;
 		}
-	}
-	cleanUpGifLoadState();
-	return IL_TRUE;
-}
-
-
-/*From the GIF spec:
-
-  The rows of an Interlaced images are arranged in the following order:
-
-      Group 1 : Every 8th. row, starting with row 0.              (Pass 1)
-      Group 2 : Every 8th. row, starting with row 4.              (Pass 2)
-      Group 3 : Every 4th. row, starting with row 2.              (Pass 3)
-      Group 4 : Every 2nd. row, starting with row 1.              (Pass 4)
-*/
-
-ILboolean RemoveInterlace(ILimage *image)
-{
-	ILubyte *NewData;
-	ILuint	i, j = 0;
-
-	NewData = (ILubyte*)ialloc(image->SizeOfData);
-	if (NewData == NULL)
-		return IL_FALSE;
-
-	//changed 20041230: images with offsety != 0 were not
-	//deinterlaced correctly before...
-	for (i = 0; i < image->OffY; i++, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 0 + image->OffY; i < image->Height; i += 8, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 4 + image->OffY; i < image->Height; i += 8, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
 
-	for (i = 2 + image->OffY; i < image->Height; i += 4, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 1 + image->OffY; i < image->Height; i += 2, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	ifree(image->Data);
-	image->Data = NewData;
-
-	return IL_TRUE;
-}
-
-
-// Uses the transparent colour index to make an alpha channel.
-ILboolean ConvertTransparent(ILimage *Image, ILubyte TransColour)
-{
-	ILubyte	*Palette;
-	ILuint	i, j;
-
-	if (!Image->Pal.Palette || !Image->Pal.PalSize) {
-		ilSetError(IL_INTERNAL_ERROR);
-		return IL_FALSE;
-	}
-
-	Palette = (ILubyte*)ialloc(Image->Pal.PalSize / 3 * 4);
-	if (Palette == NULL)
-		return IL_FALSE;
+		Code = In;
+		if (Code >= Slot) {
+			Stack[Sp++] = First;
+			Code = Old;
+		}
+		while (Code >= Clear + 2) {
+			Stack[Sp++] = Suffix[Code];
+			Code = Prefix[Code];
+		}
+		First = (ILubyte)Code;
+		Stack[Sp++] = First;
+
+		if (Old >= 0 && Slot < MAX_CODES) {
+			Suffix[Slot] = First;
+			Prefix[Slot++] = (ILushort)Old;
+			if (Slot == 1 << CodeSize && CodeSize < 12)
+				CodeSize++;
+		}
+		Old = In;
 
-	for (i = 0, j = 0; i < Image->Pal.PalSize; i += 3, j += 4) {
-		Palette[j  ] = Image->Pal.Palette[i  ];
-		Palette[j+1] = Image->Pal.Palette[i+1];
-		Palette[j+2] = Image->Pal.Palette[i+2];
-		if (j/4 == TransColour)
-			Palette[j+3] = 0x00;
-		else
-			Palette[j+3] = 0xFF;
+		while (Sp > 0) {
+			Sp--;
+			if (Num < NumPix)
+				Data[Num++] = Stack[Sp];
+		}
 	}
 
-	ifree(Image->Pal.Palette);
-	Image->Pal.Palette = Palette;
-	Image->Pal.PalSize = Image->Pal.PalSize / 3 * 4;
-	Image->Pal.PalType = IL_PAL_RGBA32;
-
-	return IL_TRUE;
+	// Skip the rest of the data.
+	Stream.NumBits = 0;
+	while (GifGetByte(&Stream) != IL_EOF)
+		;
+	// A file that ends right after the last pixel is fine.
+	if (Stream.Error && Num < NumPix)
+		bRet = IL_FALSE;
+
+	ifree(Stack);
+	ifree(Suffix);
+	ifree(Prefix);
+	return bRet;
 }
 
 #endif //IL_NO_GIF
-- 
2.43.0


From 57505ab2fcf169cba528fba5c3a87b2a5bc8023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 105/161] fix: decode Sun rasters, Amiga ILBM pictures and
 icons of every kind their formats define

---
 DevIL/src-IL/include/il_icon.h |   9 +-
 DevIL/src-IL/src/il_icon.cpp   | 754 ++++++++++-----------------------
 DevIL/src-IL/src/il_ilbm.cpp   | 460 +++++++-------------
 DevIL/src-IL/src/il_sun.cpp    | 318 ++++++--------
 4 files changed, 499 insertions(+), 1042 deletions(-)

diff --git a/DevIL/src-IL/include/il_icon.h b/DevIL/src-IL/include/il_icon.h
index aa2124c..4a20466 100644
--- a/DevIL/src-IL/include/il_icon.h
+++ b/DevIL/src-IL/include/il_icon.h
@@ -53,18 +53,11 @@ typedef struct INFOHEAD
 	ILint		ColourImportant;
 } IL_PACKSTRUCT INFOHEAD;
 
-typedef struct ICOIMAGE
-{
-	INFOHEAD	Head;
-	ILubyte		*Pal;	// Palette
-	ILubyte		*Data;	// XOR mask
-	ILubyte		*AND;	// AND mask
-} ICOIMAGE;
 #ifdef _WIN32
 	#pragma pack(pop, ico_struct)
 #endif
 
 ILboolean iLoadIconInternal();
-ILboolean iLoadIconPNG(ICOIMAGE *Icon);
+ILimage*  iLoadIconPNG(void);
 
 #endif//ICON_H
diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index 23adb16..015a912 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -60,615 +60,287 @@ ILboolean ilLoadIconL(const void *Lump, ILuint Size)
 }
 
 
-// Internal function used to load the icon.
-ILboolean iLoadIconInternal()
+// Makes the image that one of the icons is decoded into.
+static ILimage *iNewIconImage(ILuint Width, ILuint Height)
 {
-	ICODIR		IconDir;
-	ICODIRENTRY	*DirEntries = NULL;
-	ICOIMAGE	*IconImages = NULL;
-	ILimage		*Image = NULL;
-	ILint		i;
-	ILuint		Size, PadSize, ANDPadSize, j, k, l, m, x, w, CurAndByte, AndBytes;
-	ILboolean	BaseCreated = IL_FALSE;
-	ILubyte		PNGTest[3];
+	ILimage *Image = ilNewImage(Width, Height, 1, 4, 1);
 
-	if (iCurImage == NULL) {
-		ilSetError(IL_ILLEGAL_OPERATION);
-		return IL_FALSE;
+	if (Image != NULL) {
+		Image->Format = IL_BGRA;
+		Image->Type = IL_UNSIGNED_BYTE;
+		Image->Origin = IL_ORIGIN_LOWER_LEFT;
 	}
+	return Image;
+}
 
-	IconDir.Reserved = GetLittleShort();
-	IconDir.Type = GetLittleShort();
-	IconDir.Count = GetLittleShort();
-
-	if (ieof())
-		goto file_read_error;
 
-	DirEntries = (ICODIRENTRY*)ialloc(sizeof(ICODIRENTRY) * IconDir.Count);
-	IconImages = (ICOIMAGE*)ialloc(sizeof(ICOIMAGE) * IconDir.Count);
-	if (DirEntries == NULL || IconImages == NULL) {
-		ifree(DirEntries);
-		ifree(IconImages);
-		return IL_FALSE;
+// Reads an icon that is stored as a bitmap.  Skips (without an error) those with an unknown number of bits.
+static ILimage *iLoadIconBmp(ILboolean *Skipped)
+{
+	INFOHEAD	Head;
+	ILimage		*Image = NULL;
+	ILubyte		Pal[256 * 4], *Line = NULL, *Pixel;
+	ILuint		x, y, Bits, NumColours, LineSize, AndSize, Index;
+
+	if (iread(&Head, 1, sizeof(Head)) != sizeof(Head))
+		return NULL;
+	Int(&Head.Size);
+	Int(&Head.Width);
+	Int(&Head.Height);
+	Short(&Head.BitCount);
+	Int(&Head.Compression);
+	Int(&Head.ColourUsed);
+
+	Bits = (ILushort)Head.BitCount;
+	if (Bits != 1 && Bits != 4 && Bits != 8 && Bits != 24 && Bits != 32) {
+		*Skipped = IL_TRUE;
+		return NULL;
 	}
 
-	// Make it easier for file_read_error.
-	for (i = 0; i < IconDir.Count; i++)
-		imemclear(&IconImages[i], sizeof(ICOIMAGE));
-
-	for (i = 0; i < IconDir.Count; ++i) {
-		DirEntries[i].Width = (ILubyte)igetc();
-		DirEntries[i].Height = (ILubyte)igetc();
-		DirEntries[i].NumColours = (ILubyte)igetc();
-		DirEntries[i].Reserved = (ILubyte)igetc();
-		DirEntries[i].Planes = GetLittleShort();
-		DirEntries[i].Bpp = GetLittleShort();
-		DirEntries[i].SizeOfData = GetLittleUInt();
-		DirEntries[i].Offset = GetLittleUInt();
-
-		if (ieof())
-			goto file_read_error;
+	Head.Height /= 2;  // The mask counts as well.
+	if (Head.Size < (ILint)sizeof(Head) || Head.Width <= 0 || Head.Height <= 0 || Head.Width > 0x8000
+		|| Head.Height > 0x8000 || Head.Compression != 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return NULL;
 	}
-
-	for (i = 0; i < IconDir.Count; i++) {
-		iseek(DirEntries[i].Offset, IL_SEEK_SET);
-
-		// 08-22-2008: Adding test for compressed PNG data
-		igetc(); // Skip the first character...seems to vary.
-		iread(PNGTest, 3, 1);
-		if (!strnicmp((char*)PNGTest, "PNG", 3))  // Characters 'P', 'N', 'G' for PNG header
-		{
-#ifdef IL_NO_PNG
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);  // Cannot handle these without libpng.
-			goto file_read_error;
-#else
-			iseek(DirEntries[i].Offset, IL_SEEK_SET);
-			if (!iLoadIconPNG(&IconImages[i]))
-				goto file_read_error;
-#endif
+	if (Head.Size > (ILint)sizeof(Head) && iseek(Head.Size - sizeof(Head), IL_SEEK_CUR))
+		return NULL;
+
+	if (Bits <= 8) {
+		NumColours = Head.ColourUsed == 0 ? 1 << Bits : (ILuint)Head.ColourUsed;
+		if (NumColours > 256) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return NULL;
 		}
-		else
-		{
-			// Need to go back the 4 bytes that were just read.
-			iseek(DirEntries[i].Offset, IL_SEEK_SET);
-
-			IconImages[i].Head.Size = GetLittleInt();
-			IconImages[i].Head.Width = GetLittleInt();
-			IconImages[i].Head.Height = GetLittleInt();
-			IconImages[i].Head.Planes = GetLittleShort();
-			IconImages[i].Head.BitCount = GetLittleShort();
-			IconImages[i].Head.Compression = GetLittleInt();
-			IconImages[i].Head.SizeImage = GetLittleInt();
-			IconImages[i].Head.XPixPerMeter = GetLittleInt();
-			IconImages[i].Head.YPixPerMeter = GetLittleInt();
-			IconImages[i].Head.ColourUsed = GetLittleInt();
-			IconImages[i].Head.ColourImportant = GetLittleInt();
-
-			if (ieof())
-				goto file_read_error;
-
-			if (IconImages[i].Head.BitCount < 8) {
-				if (IconImages[i].Head.ColourUsed == 0) {
-					switch (IconImages[i].Head.BitCount)
-					{
-						case 1:
-							IconImages[i].Head.ColourUsed = 2;
-							break;
-						case 4:
-							IconImages[i].Head.ColourUsed = 16;
-							break;
-					}
-				}
-				IconImages[i].Pal = (ILubyte*)ialloc(IconImages[i].Head.ColourUsed * 4);
-				if (IconImages[i].Pal == NULL)
-					goto file_read_error;  // @TODO: Rename the label.
-				if (iread(IconImages[i].Pal, IconImages[i].Head.ColourUsed * 4, 1) != 1)
-					goto file_read_error;
-			}
-			else if (IconImages[i].Head.BitCount == 8) {
-				IconImages[i].Pal = (ILubyte*)ialloc(256 * 4);
-				if (IconImages[i].Pal == NULL)
-					goto file_read_error;
-				if (iread(IconImages[i].Pal, 1, 256 * 4) != 256*4)
-					goto file_read_error;
+		imemclear(Pal, sizeof(Pal));
+		if (iread(Pal, 4, NumColours) != NumColours)
+			return NULL;
+	}
+
+	LineSize = (Head.Width * Bits + 31) / 32 * 4;  // Has to be DWORD-aligned.
+	AndSize = (Head.Width + 31) / 32 * 4;  // AND is 1 bit/pixel
+	Image = iNewIconImage(Head.Width, Head.Height);
+	Line = (ILubyte*)ialloc(LineSize);
+	if (Image == NULL || Line == NULL)
+		goto read_error;
+
+	for (y = 0; y < Image->Height; y++) {
+		if (iread(Line, 1, LineSize) != LineSize)
+			goto read_error;
+		Pixel = Image->Data + y * Image->Bps;
+		for (x = 0; x < Image->Width; x++, Pixel += 4) {
+			if (Bits <= 8) {
+				Index = (Line[x * Bits / 8] >> (8 - Bits - x * Bits % 8)) & ((1 << Bits) - 1);
+				memcpy(Pixel, Pal + Index * 4, 3);
 			}
 			else {
-				IconImages[i].Pal = NULL;
+				// If the icon has 4 channels, use 4th channel for alpha...
+				// (for Windows XP style icons with true alpha channel
+				memcpy(Pixel, Line + x * Bits / 8, Bits / 8);
 			}
-
-			PadSize = (4 - ((IconImages[i].Head.Width*IconImages[i].Head.BitCount + 7) / 8) % 4) % 4;  // Has to be DWORD-aligned.
-			ANDPadSize = (4 - ((IconImages[i].Head.Width + 7) / 8) % 4) % 4;  // AND is 1 bit/pixel
-			Size = ((IconImages[i].Head.Width*IconImages[i].Head.BitCount + 7) / 8 + PadSize)
-								* (IconImages[i].Head.Height / 2);
-
-
-			IconImages[i].Data = (ILubyte*)ialloc(Size);
-			if (IconImages[i].Data == NULL)
-				goto file_read_error;
-			if (iread(IconImages[i].Data, 1, Size) != Size)
-				goto file_read_error;
-
-			Size = (((IconImages[i].Head.Width + 7) /8) + ANDPadSize) * (IconImages[i].Head.Height / 2);
-			IconImages[i].AND = (ILubyte*)ialloc(Size);
-			if (IconImages[i].AND == NULL)
-				goto file_read_error;
-			if (iread(IconImages[i].AND, 1, Size) != Size)
-				goto file_read_error;
 		}
 	}
 
-
-	for (i = 0; i < IconDir.Count; i++) {
-		if (IconImages[i].Head.BitCount != 1 && IconImages[i].Head.BitCount != 4 &&
-			IconImages[i].Head.BitCount != 8 && IconImages[i].Head.BitCount != 24 &&
-
-			IconImages[i].Head.BitCount != 32)
-			continue;
-
-		if (!BaseCreated) {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-			else
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
-			Image = iCurImage;
-			BaseCreated = IL_TRUE;
-		}
-		else {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, 1);
-			else
-				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, 1);
-			Image = Image->Next;
-			Image->Format = IL_BGRA;
+	// Now comes the mask.
+	for (y = 0; y < Image->Height && Bits != 32; y++) {
+		if (iread(Line, 1, AndSize) != AndSize)
+			goto read_error;
+		Pixel = Image->Data + y * Image->Bps;
+		for (x = 0; x < Image->Width; x++) {
+			Pixel[x * 4 + 3] = (Line[x / 8] & (0x80 >> (x % 8))) ? 0 : 255;
 		}
-		Image->Type = IL_UNSIGNED_BYTE;
-
-		j = 0;  k = 0;  l = 128;  CurAndByte = 0; x = 0;
-
-		w = IconImages[i].Head.Width;
-		PadSize = (4 - ((w*IconImages[i].Head.BitCount + 7) / 8) % 4) % 4;  // Has to be DWORD-aligned.
-
-		ANDPadSize = (4 - ((w + 7) / 8) % 4) % 4;  // AND is 1 bit/pixel
-		AndBytes = (w + 7) / 8;
-
-		if (IconImages[i].Head.BitCount == 1) {
-			for (; j < Image->SizeOfData; k++) {
-				for (m = 128; m && x < w; m >>= 1) {
-					Image->Data[j] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4];
-					Image->Data[j+1] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4 + 1];
-					Image->Data[j+2] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4 + 2];
-					Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-					j += 4;
-					l >>= 1;
-
-					++x;
-				}
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-						k += PadSize;
-						x = 0;
-					}
-
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 4) {
-			for (; j < Image->SizeOfData; j += 8, k++) {
-				Image->Data[j] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4];
-				Image->Data[j+1] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4 + 1];
-				Image->Data[j+2] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4 + 2];
-				Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				l >>= 1;
-
-				++x;
+	}
 
-				if(x < w) {
-					Image->Data[j+4] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4];
-					Image->Data[j+5] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4 + 1];
-					Image->Data[j+6] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4 + 2];
-					Image->Data[j+7] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-					l >>= 1;
+	ifree(Line);
+	return Image;
 
-					++x;
+read_error:
+	ifree(Line);
+	ilCloseImage(Image);
+	return NULL;
+}
 
-				}
 
-				else
+// Internal function used to load the icon.
+ILboolean iLoadIconInternal()
+{
+	ICODIR		IconDir;
+	ICODIRENTRY	*DirEntries = NULL;
+	ILimage		*First = NULL, *Last = NULL, *Image;
+	ILuint		i, Count;
+	ILubyte		PNGTest[4];
+	ILboolean	Skipped;
 
-					j -= 4;
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
+	if (iread(&IconDir, 1, sizeof(IconDir)) != sizeof(IconDir))
+		return IL_FALSE;
+	Short(&IconDir.Reserved);
+	Short(&IconDir.Type);
+	Short(&IconDir.Count);
+	Count = (ILushort)IconDir.Count;
+	if (IconDir.Reserved != 0 || (IconDir.Type != 1 && IconDir.Type != 2) || Count == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
+	DirEntries = (ICODIRENTRY*)ialloc(sizeof(ICODIRENTRY) * Count);
+	if (DirEntries == NULL)
+		return IL_FALSE;
+	if (iread(DirEntries, sizeof(ICODIRENTRY), Count) != Count)
+		goto file_read_error;
 
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 8) {
-			for (; j < Image->SizeOfData; j += 4, k++) {
-				Image->Data[j] = IconImages[i].Pal[IconImages[i].Data[k] * 4];
-				Image->Data[j+1] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 1];
-				Image->Data[j+2] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 2];
-				if (IconImages[i].AND == NULL)  // PNG Palette
-				{
-					Image->Data[j+3] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 3];
-				}
-				else
-				{
-					Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				}
-				l >>= 1;
-
-				++x;
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 24) {
-			for (; j < Image->SizeOfData; j += 4, k += 3) {
-				Image->Data[j] = IconImages[i].Data[k];
-				Image->Data[j+1] = IconImages[i].Data[k+1];
-				Image->Data[j+2] = IconImages[i].Data[k+2];
-				Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				l >>= 1;
-
-				++x;
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
+	for (i = 0; i < Count; i++) {
+		UInt(&DirEntries[i].Offset);
+		if (DirEntries[i].Offset > 0x7FFFFFFF) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			goto file_read_error;
 		}
+		if (iseek(DirEntries[i].Offset, IL_SEEK_SET) || iread(PNGTest, 1, 4) != 4 || iseek(-4, IL_SEEK_CUR))
+			goto file_read_error;
 
-		else if (IconImages[i].Head.BitCount == 32) {
-			for (; j < Image->SizeOfData; j += 4, k += 4) {
-				Image->Data[j] = IconImages[i].Data[k];
-				Image->Data[j+1] = IconImages[i].Data[k+1];
-				Image->Data[j+2] = IconImages[i].Data[k+2];
+		// 08-22-2008: Adding test for compressed PNG data
+		Skipped = IL_FALSE;
+		if (!strnicmp((char*)PNGTest + 1, "PNG", 3))  // The first character seems to vary.
+			Image = iLoadIconPNG();
+		else
+			Image = iLoadIconBmp(&Skipped);
+		if (Skipped)
+			continue;
+		if (Image == NULL)
+			goto file_read_error;
 
-				//If the icon has 4 channels, use 4th channel for alpha...
-				//(for Windows XP style icons with true alpha channel
-				Image->Data[j+3] = IconImages[i].Data[k+3];
-			}
-		}
+		if (First == NULL)
+			First = Image;
+		else
+			Last->Next = Image;
+		Last = Image;
 	}
 
-
-	for (i = 0; i < IconDir.Count; i++) {
-		ifree(IconImages[i].Pal);
-		ifree(IconImages[i].Data);
-		ifree(IconImages[i].AND);
+	if (First == NULL) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		goto file_read_error;
 	}
-	ifree(IconImages);
+
+	// The first icon is the current image.
+	if (!ilTexImage(First->Width, First->Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+		goto file_read_error;
+	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+	memcpy(iCurImage->Data, First->Data, First->SizeOfData);
+	iCurImage->Next = First->Next;
+	First->Next = NULL;
+	ilCloseImage(First);
 	ifree(DirEntries);
 
 	return ilFixImage();
 
 file_read_error:
-	if (IconImages) {
-		for (i = 0; i < IconDir.Count; i++) {
-			if (IconImages[i].Pal)
-				ifree(IconImages[i].Pal);
-			if (IconImages[i].Data)
-				ifree(IconImages[i].Data);
-			if (IconImages[i].AND)
-				ifree(IconImages[i].AND);
-		}
-		ifree(IconImages);
+	while (First != NULL) {
+		Image = First->Next;
+		First->Next = NULL;
+		ilCloseImage(First);
+		First = Image;
 	}
-	if (DirEntries)
-		ifree(DirEntries);
+	ifree(DirEntries);
 	return IL_FALSE;
 }
 
 
-#ifndef IL_NO_PNG
-// 08-22-2008: Copying a lot of this over from il_png.c for the moment.
-// @TODO: Make .ico and .png use the same functions.
-png_structp ico_png_ptr = NULL;
-png_infop   ico_info_ptr = NULL;
-ILint		ico_color_type;
-
-#define GAMMA_CORRECTION 1.0  // Doesn't seem to be doing anything...
-
-ILint ico_readpng_init();
-ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent);
-void ico_readpng_cleanup();
-#endif
-
-ILboolean iLoadIconPNG(ICOIMAGE *Icon)
-{
-#ifndef IL_NO_PNG
-	ILint init;
-	init = ico_readpng_init();
-	if (init)
-		return IL_FALSE;
-	if (!ico_readpng_get_image(Icon, GAMMA_CORRECTION))
-		return IL_FALSE;
-
-	ico_readpng_cleanup();
-	Icon->Head.Size = 0;	// Easiest way to tell that this is a PNG.
-							// In the normal routine, it will not be 0.
-
-	return IL_TRUE;
-#else
-	Icon;
-	return IL_FALSE;
-#endif
-}
-
 #ifndef IL_NO_PNG
 static void ico_png_read(png_structp png_ptr, png_bytep data, png_size_t length)
 {
-	(void)png_ptr;
-	iread(data, 1, (ILuint)length);
-	return;
+	if (iread(data, 1, (ILuint)length) != length)
+		png_error(png_ptr, "Read error");
 }
 
 
 static void ico_png_error_func(png_structp png_ptr, png_const_charp message)
 {
-	message;
+	(void)message;
 	ilSetError(IL_LIB_PNG_ERROR);
-
-	/*
-	  changed 20040224
-	  From the libpng docs:
-	  "Errors handled through png_error() are fatal, meaning that png_error()
-	   should never return to its caller. Currently, this is handled via
-	   setjmp() and longjmp()"
-	*/
-	//return;
 	longjmp(png_jmpbuf(png_ptr), 1);
 }
 
+
 static void ico_png_warn_func(png_structp png_ptr, png_const_charp message)
 {
-	png_ptr; message;
-	return;
+	(void)png_ptr; (void)message;
 }
+#endif
 
 
-ILint ico_readpng_init()
+// Reads an icon that is stored as a PNG.
+ILimage *iLoadIconPNG(void)
 {
-	ico_png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, ico_png_error_func, ico_png_warn_func);
-	if (!ico_png_ptr)
-		return 4;	/* out of memory */
-
-	ico_info_ptr = png_create_info_struct(ico_png_ptr);
-	if (!ico_info_ptr) {
-		png_destroy_read_struct(&ico_png_ptr, NULL, NULL);
-		return 4;	/* out of memory */
+#ifndef IL_NO_PNG
+	png_structp	png_ptr;
+	png_infop	info_ptr = NULL;
+	png_bytep	*Rows;
+	png_byte	Type;
+	ILimage		*Image;
+	ILuint		y;
+	// These are used after a longjmp.
+	ILimage		*volatile Result = NULL;
+	png_bytep	*volatile RowsUsed = NULL;
+
+	png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, ico_png_error_func, ico_png_warn_func);
+	if (png_ptr == NULL) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return NULL;
 	}
-
-
-	/* we could create a second info struct here (end_info), but it's only
-	 * useful if we want to keep pre- and post-IDAT chunk info separated
-	 * (mainly for PNG-aware image editors and converters) */
-
-
-	/* setjmp() must be called in every function that calls a PNG-reading
-	 * libpng function */
-
-	if (setjmp(png_jmpbuf(ico_png_ptr))) {
-		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-		return 2;
+	info_ptr = png_create_info_struct(png_ptr);
+	if (info_ptr == NULL) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		png_destroy_read_struct(&png_ptr, NULL, NULL);
+		return NULL;
 	}
 
-
-	png_set_read_fn(ico_png_ptr, NULL, ico_png_read);
-	png_set_error_fn(ico_png_ptr, NULL, ico_png_error_func, ico_png_warn_func);
-
-//	png_set_sig_bytes(ico_png_ptr, 8);	/* we already read the 8 signature bytes */
-
-	png_read_info(ico_png_ptr, ico_info_ptr);  /* read all PNG info up to image data */
-
-	/* alternatively, could make separate calls to png_get_image_width(),
-	 * etc., but want bit_depth and ico_color_type for later [don't care about
-	 * compression_type and filter_type => NULLs] */
-
-	/* OK, that's all we need for now; return happy */
-
-	return 0;
-}
-
-
-ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
-{
-	png_bytepp	row_pointers = NULL;
-	png_uint_32 width, height; // Changed the type to fix AMD64 bit problems, thanks to Eric Werness
-	ILdouble	screen_gamma = 1.0;
-	ILuint		i, channels;
-	ILenum		format;
-	png_colorp	palette;
-	ILint		num_palette, j, bit_depth;
-#if _WIN32 || DJGPP
-	ILdouble image_gamma;
-#endif
-
-	display_exponent;
-
-	/* setjmp() must be called in every function that calls a PNG-reading
-	 * libpng function */
-
-	if (setjmp(png_jmpbuf(ico_png_ptr))) {
-		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-		return IL_FALSE;
+	if (setjmp(png_jmpbuf(png_ptr))) {
+		png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+		ifree((void*)RowsUsed);
+		ilCloseImage(Result);
+		return NULL;
 	}
 
-	png_get_IHDR(ico_png_ptr, ico_info_ptr, (png_uint_32*)&width, (png_uint_32*)&height,
-	             &bit_depth, &ico_color_type, NULL, NULL, NULL);
-
-	// Expand low-bit-depth grayscale images to 8 bits
-	if (ico_color_type == PNG_COLOR_TYPE_GRAY && bit_depth < 8) {
-		png_set_expand_gray_1_2_4_to_8(ico_png_ptr);
+	png_set_read_fn(png_ptr, NULL, ico_png_read);
+	png_read_info(png_ptr, info_ptr);
+
+	// Every kind of PNG is expanded to 8 bits per channel and BGRA.
+	Type = png_get_color_type(png_ptr, info_ptr);
+	png_set_expand(png_ptr);
+	png_set_strip_16(png_ptr);
+	if (!(Type & PNG_COLOR_MASK_COLOR))
+		png_set_gray_to_rgb(png_ptr);
+	png_set_bgr(png_ptr);
+	png_set_add_alpha(png_ptr, 0xFF, PNG_FILLER_AFTER);
+	png_set_interlace_handling(png_ptr);
+	png_read_update_info(png_ptr, info_ptr);
+
+	Image = iNewIconImage(png_get_image_width(png_ptr, info_ptr), png_get_image_height(png_ptr, info_ptr));
+	Result = Image;
+	Rows = Image == NULL ? NULL : (png_bytep*)ialloc(Image->Height * sizeof(png_bytep));
+	RowsUsed = Rows;
+	if (Rows == NULL) {
+		png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+		ilCloseImage(Image);
+		return NULL;
 	}
 
-	// Expand RGB images with transparency to full alpha channels
-	//	so the data will be available as RGBA quartets.
- 	// But don't expand paletted images, since we want alpha palettes!
-	if (png_get_valid(ico_png_ptr, ico_info_ptr, PNG_INFO_tRNS) && !(png_get_valid(ico_png_ptr, ico_info_ptr, PNG_INFO_PLTE)))
-		png_set_tRNS_to_alpha(ico_png_ptr);
-
-	//refresh information (added 20040224)
-	png_get_IHDR(ico_png_ptr, ico_info_ptr, (png_uint_32*)&width, (png_uint_32*)&height,
-	             &bit_depth, &ico_color_type, NULL, NULL, NULL);
-
-	if (bit_depth < 8) {	// Expanded earlier for grayscale, now take care of palette and rgb
-		bit_depth = 8;
-		png_set_packing(ico_png_ptr);
-	}
+	// Needs to be flipped
+	for (y = 0; y < Image->Height; y++)
+		Rows[Image->Height - y - 1] = Image->Data + y * Image->Bps;
+	png_read_image(png_ptr, Rows);
 
-	// Perform gamma correction.
-	// @TODO:  Determine if we should call png_set_gamma if image_gamma is 1.0.
-#if _WIN32 || DJGPP
-	screen_gamma = 2.2;
-	if (png_get_gAMA(ico_png_ptr, ico_info_ptr, &image_gamma))
-		png_set_gamma(ico_png_ptr, screen_gamma, image_gamma);
+	png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+	ifree(Rows);
+	return Image;
 #else
-	screen_gamma = screen_gamma;
-#endif
-
-	//fix endianess
-#ifdef __LITTLE_ENDIAN__
-	if (bit_depth == 16)
-		png_set_swap(ico_png_ptr);
+	ilSetError(IL_FORMAT_NOT_SUPPORTED);  // Cannot handle these without libpng.
+	return NULL;
 #endif
-
-
-	png_read_update_info(ico_png_ptr, ico_info_ptr);
-	channels = (ILint)png_get_channels(ico_png_ptr, ico_info_ptr);
-	// added 20040224: update ico_color_type so that it has the correct value
-	// in iLoadPngInternal (globals rule...)
-	ico_color_type = png_get_color_type(ico_png_ptr, ico_info_ptr);
-
-	// Determine internal format
-	switch (ico_color_type)
-	{
-		case PNG_COLOR_TYPE_PALETTE:
-			Icon->Head.BitCount = 8;
-			format = IL_COLOUR_INDEX;
-			break;
-		case PNG_COLOR_TYPE_RGB:
-			Icon->Head.BitCount = 24;
-			format = IL_RGB;
-			break;
-		case PNG_COLOR_TYPE_RGB_ALPHA:
-			Icon->Head.BitCount = 32;
-			format = IL_RGBA;
-			break;
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-			return IL_FALSE;
-	}
-
-	if (ico_color_type & PNG_COLOR_MASK_COLOR)
-		png_set_bgr(ico_png_ptr);
-
-	Icon->Head.Width = width;
-	Icon->Head.Height = height;
-	Icon->Data = (ILubyte*)ialloc(width * height * Icon->Head.BitCount / 8);
-	if (Icon->Data == NULL)
-	{
-		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-		return IL_FALSE;
-	}
-
-	// Copy Palette
-	if (format == IL_COLOUR_INDEX)
-	{
-		int chans;
-		png_bytep trans = NULL;
-		int num_trans = -1;
-		if (!png_get_PLTE(ico_png_ptr, ico_info_ptr, &palette, &num_palette)) {
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-			return IL_FALSE;
-		}
-
-		chans = 4;
-
-		if (png_get_valid(ico_png_ptr, ico_info_ptr, PNG_INFO_tRNS)) {
-			png_get_tRNS(ico_png_ptr, ico_info_ptr, &trans, &num_trans, NULL);
-		}
-
-// @TODO: We may need to keep track of the size of the palette.
-		Icon->Pal = (ILubyte*)ialloc(num_palette * chans);
-
-		for (j = 0; j < num_palette; ++j) {
-			Icon->Pal[chans*j + 0] = palette[j].blue;
-			Icon->Pal[chans*j + 1] = palette[j].green;
-			Icon->Pal[chans*j + 2] = palette[j].red;
-			if (trans != NULL) {
-				if (j < num_trans)
-					Icon->Pal[chans*j + 3] = trans[j];
-				else
-					Icon->Pal[chans*j + 3] = 255;
-			}
-		}
-
-		Icon->AND = NULL;  // Transparency information is obtained from libpng.
-	}
-
-	//allocate row pointers
-	if ((row_pointers = (png_bytepp)ialloc(height * sizeof(png_bytep))) == NULL) {
-		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-		return IL_FALSE;
-	}
-
-
-	// Set the individual row_pointers to point at the correct offsets
-	// Needs to be flipped
-	for (i = 0; i < height; i++)
-		row_pointers[height - i - 1] = Icon->Data + i * width * Icon->Head.BitCount / 8;
-		//row_pointers[i] = Icon->Data + i * width * Icon->Head.BitCount / 8;
-
-
-	// Now we can go ahead and just read the whole image
-	png_read_image(ico_png_ptr, row_pointers);
-
-	/* and we're done!	(png_read_end() can be omitted if no processing of
-	 * post-IDAT text/time/etc. is desired) */
-	//png_read_end(ico_png_ptr, NULL);
-	ifree(row_pointers);
-
-	return IL_TRUE;
-}
-
-
-void ico_readpng_cleanup()
-{
-	if (ico_png_ptr && ico_info_ptr) {
-		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-		ico_png_ptr = NULL;
-		ico_info_ptr = NULL;
-	}
 }
-#endif//IL_NO_PNG
 
 #endif//IL_NO_ICO
diff --git a/DevIL/src-IL/src/il_ilbm.cpp b/DevIL/src-IL/src/il_ilbm.cpp
index cdbf73f..18f38f2 100644
--- a/DevIL/src-IL/src/il_ilbm.cpp
+++ b/DevIL/src-IL/src/il_ilbm.cpp
@@ -240,98 +240,93 @@ static int isLBM()
     return( is_LBM );
 }
 
-static ILboolean load_ilbm(void)
+/* Reads a row of one plane */
+static ILboolean read_row(Uint8 *ptr, Uint32 size, Uint8 compressed)
 {
-    SDL_RWops* src = 0;
-    struct { Uint8 r; Uint8 g; Uint8 b; } scratch_pal[MAXCOLORS];
-    ILenum      format; /* IL_RGB (ham or 24bit) or IL_COLOUR_INDEX */
+    int count, color;
 
-    int start;
-    Uint8       id[4], pbm, colormap[MAXCOLORS*3], *MiniBuf, *ptr, count, color, msk;
-    Uint32      size, bytesloaded, nbcolors;
-    Uint32      i, j, bytesperline, nbplanes, plane, h;
-    Uint32      remainingbytes;
-    Uint32      width;
-    BMHD          bmhd;
-    char        *error;
-    Uint8       flagHAM,flagEHB;
-
-    error   = NULL;
-    MiniBuf = NULL;
+    if ( !compressed )
+        return iread( ptr, 1, size ) == size;
 
-    start = SDL_RWtell(src);
-    if ( !SDL_RWread( src, id, 4, 1 ) )
+    while ( size > 0 )
     {
-        error=(char*)"error reading IFF chunk";
-        goto done;
-    }
+        if ( ( count = igetc() ) == IL_EOF )
+            return IL_FALSE;
+        if ( count == 0x80 )    /* Nothing */
+            continue;
 
-    /* Should be the size of the file minus 4+4 ( 'FORM'+size ) */
-    if ( !SDL_RWread( src, &size, 4, 1 ) )
-    {
-        error=(char*)"error reading IFF chunk size";
-        goto done;
+        if ( count & 0x80 )
+        {
+            count = 257 - count;
+            if ( (Uint32)count > size )
+            {
+                ilSetError( IL_ILLEGAL_FILE_VALUE );
+                return IL_FALSE;
+            }
+            if ( ( color = igetc() ) == IL_EOF )
+                return IL_FALSE;
+            memset( ptr, color, count );
+        }
+        else
+        {
+            count++;
+            if ( (Uint32)count > size )
+            {
+                ilSetError( IL_ILLEGAL_FILE_VALUE );
+                return IL_FALSE;
+            }
+            if ( iread( ptr, 1, count ) != (ILuint)count )
+                return IL_FALSE;
+        }
+        ptr += count;
+        size -= count;
     }
 
-    /* As size is not used here, no need to swap it */
-
-    if ( memcmp( id, "FORM", 4 ) != 0 )
-    {
-        ilSetError(IL_INVALID_FILE_HEADER);
-        error=(char*)"not a IFF file";
-        goto done;
-    }
+    return IL_TRUE;
+}
 
-    if ( !SDL_RWread( src, id, 4, 1 ) )
-    {
-        error=(char*)"error reading IFF chunk";
-        goto done;
-    }
+static ILboolean load_ilbm(void)
+{
+    SDL_RWops* src = 0;
+    Uint8       id[4], form[4], colormap[MAXCOLORS*3], direct[3];
+    Uint8       *MiniBuf = NULL, *ptr, pbm, flagHAM, flagEHB;
+    Uint32      size, used, viewmodes, nbcolors, nbrcolorsfinal;
+    Uint32      i, x, y, c, bytesperline, nbplanes, plane, pixel, bits;
+    ILenum      format; /* IL_RGB (ham or 24bit) or IL_COLOUR_INDEX */
+    BMHD        bmhd;
 
-    pbm = 0;
+    if ( !SDL_RWread( src, id, 4, 1 ) || !SDL_RWread( src, &size, 4, 1 ) || !SDL_RWread( src, form, 4, 1 ) )
+        return IL_FALSE;
 
     /* File format : PBM=Packed Bitmap, ILBM=Interleaved Bitmap */
-    if ( !memcmp( id, "PBM ", 4 ) ) pbm = 1;
-    else if ( memcmp( id, "ILBM", 4 ) )
+    pbm = !memcmp( form, "PBM ", 4 );
+    if ( memcmp( id, "FORM", 4 ) || ( !pbm && memcmp( form, "ILBM", 4 ) ) )
     {
-        ilSetError(IL_INVALID_FILE_HEADER);
-        error=(char*)"not a IFF picture";
-        goto done;
+        ilSetError( IL_INVALID_FILE_HEADER );
+        return IL_FALSE;
     }
 
     nbcolors = 0;
-
+    memset( colormap, 0, sizeof( colormap ) );
     memset( &bmhd, 0, sizeof( BMHD ) );
     flagHAM = 0;
     flagEHB = 0;
 
-    while ( memcmp( id, "BODY", 4 ) != 0 )
+    while ( 1 )
     {
-        if ( !SDL_RWread( src, id, 4, 1 ) ) 
-        {
-            error=(char*)"error reading IFF chunk";
-            goto done;
-        }
-
-        if ( !SDL_RWread( src, &size, 4, 1 ) )
-        {
-            error=(char*)"error reading IFF chunk size";
-            goto done;
-        }
-
-        bytesloaded = 0;
-
+        if ( !SDL_RWread( src, id, 4, 1 ) || !SDL_RWread( src, &size, 4, 1 ) )
+            return IL_FALSE;
         size = SDL_SwapBE32( size );
+        used = 0;
 
-        if ( !memcmp( id, "BMHD", 4 ) ) /* Bitmap header */
+        if ( !memcmp( id, "BODY", 4 ) )
+            break;
+
+        if ( !memcmp( id, "BMHD", 4 ) && size >= sizeof( BMHD ) ) /* Bitmap header */
         {
             if ( !SDL_RWread( src, &bmhd, sizeof( BMHD ), 1 ) )
-            {
-                error=(char*)"error reading BMHD chunk";
-                goto done;
-            }
-
-            bytesloaded = sizeof( BMHD );
+                return IL_FALSE;
+            used = sizeof( BMHD );
 
             bmhd.w      = SDL_SwapBE16( bmhd.w );
             bmhd.h      = SDL_SwapBE16( bmhd.h );
@@ -341,29 +336,19 @@ static ILboolean load_ilbm(void)
             bmhd.Lpage  = SDL_SwapBE16( bmhd.Lpage );
             bmhd.Hpage  = SDL_SwapBE16( bmhd.Hpage );
         }
-
-        if ( !memcmp( id, "CMAP", 4 ) ) /* palette ( Color Map ) */
+        else if ( !memcmp( id, "CMAP", 4 ) ) /* palette ( Color Map ) */
         {
-            if ( !SDL_RWread( src, &colormap, size, 1 ) )
-            {
-                error=(char*)"error reading CMAP chunk";
-                goto done;
-            }
-
-            bytesloaded = size;
-            nbcolors = size / 3;
+            used = IL_MIN( size, sizeof( colormap ) );
+            if ( SDL_RWread( src, colormap, 1, used ) != used )
+                return IL_FALSE;
+            nbcolors = used / 3;
         }
-
-        if ( !memcmp( id, "CAMG", 4 ) ) /* Amiga ViewMode  */
+        else if ( !memcmp( id, "CAMG", 4 ) && size >= 4 ) /* Amiga ViewMode  */
         {
-            Uint32 viewmodes;
-            if ( !SDL_RWread( src, &viewmodes, sizeof(viewmodes), 1 ) )
-            {
-                error=(char*)"error reading CAMG chunk";
-                goto done;
-            }
+            if ( !SDL_RWread( src, &viewmodes, sizeof( viewmodes ), 1 ) )
+                return IL_FALSE;
+            used = sizeof( viewmodes );
 
-            bytesloaded = size;
             viewmodes = SDL_SwapBE32( viewmodes );
             if ( viewmodes & 0x0800 )
                 flagHAM = 1;
@@ -371,69 +356,54 @@ static ILboolean load_ilbm(void)
                 flagEHB = 1;
         }
 
-        if ( memcmp( id, "BODY", 4 ) )
+        /* skip the remaining bytes of this chunk, and the padding */
+        if ( size - used > 0x7FFFFFF0 )
         {
-            if ( size & 1 ) ++size;     /* padding ! */
-            size -= bytesloaded;
-            /* skip the remaining bytes of this chunk */
-            if ( size ) SDL_RWseek( src, size, SEEK_CUR );
+            ilSetError( IL_ILLEGAL_FILE_VALUE );
+            return IL_FALSE;
         }
+        used = size - used + ( size & 1 );
+        if ( used && SDL_RWseek( src, used, SEEK_CUR ) )
+            return IL_FALSE;
     }
 
-    /* compute some usefull values, based on the bitmap header */
-
-    width = ( bmhd.w + 15 ) & 0xFFFFFFF0;  /* Width in pixels modulo 16 */
-
-    bytesperline = ( ( bmhd.w + 15 ) / 16 ) * 2;
-
     nbplanes = bmhd.planes;
-
-    if ( pbm )                         /* File format : 'Packed Bitmap' */
+    if ( bmhd.w == 0 || bmhd.h == 0 || bmhd.tcomp > 1
+        || ( ( nbplanes < 1 || nbplanes > 8 ) && ( nbplanes != 24 || pbm ) )
+        || ( flagHAM && nbplanes != 6 && nbplanes != 8 ) )
     {
-        bytesperline *= 8;
-        nbplanes = 1;
+        ilSetError( IL_INVALID_FILE_HEADER );
+        return IL_FALSE;
     }
 
-    if ( bmhd.mask & 1 ) ++nbplanes;   /* There is a mask ( 'stencil' ) */
-
-    /* Allocate memory for a temporary buffer ( used for
-           decompression/deinterleaving ) */
+    /* compute some usefull values, based on the bitmap header */
 
-	//@TODO: Why do we have a malloc here instead of ialloc?
-    if ( ( MiniBuf = (ILubyte*)malloc( bytesperline * nbplanes ) ) == NULL )
+    if ( pbm )                         /* File format : 'Packed Bitmap' */
     {
-        ilSetError( IL_OUT_OF_MEMORY );
-        error=(char*)"not enough memory for temporary buffer";
-        goto done;
-    }
-
-    if( bmhd.planes==24 || flagHAM==1 ) {
-        format = IL_BGR;
-    } else {
-        format = IL_COLOUR_INDEX;
+        bytesperline = ( bmhd.w + 1 ) & ~1;
+        flagHAM = 0;
+        nbplanes = 1;
     }
-    if( !ilTexImage( width, bmhd.h, 1, (format==IL_COLOUR_INDEX)?1:3, format, IL_UNSIGNED_BYTE, NULL ) )
-        goto done;
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+    else
+        bytesperline = ( ( bmhd.w + 15 ) / 16 ) * 2;
 
-#if 0 /*  No transparent colour support in DevIL? (TODO: confirm) */
-    if ( bmhd.mask & 2 )               /* There is a transparent color */
-        SDL_SetColorKey( Image, SDL_SRCCOLORKEY, bmhd.tcolor );
-#endif
+    format = ( bmhd.planes == 24 || flagHAM ) ? IL_RGB : IL_COLOUR_INDEX;
+    if ( !ilTexImage( bmhd.w, bmhd.h, 1, format == IL_COLOUR_INDEX ? 1 : 3, format, IL_UNSIGNED_BYTE, NULL ) )
+        return IL_FALSE;
+    iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
     /* Update palette informations */
 
     /* There is no palette in 24 bits ILBM file */
-    if ( nbcolors>0 && flagHAM==0 )
+    if ( format == IL_COLOUR_INDEX )
     {
-        int nbrcolorsfinal = 1 << nbplanes;
-        ptr = &colormap[0];
+        nbrcolorsfinal = 1 << bmhd.planes;
 
-        for ( i=0; i<nbcolors; i++ )
+        if ( nbcolors == 0 )           /* No colors were saved: these are shades of grey */
         {
-            scratch_pal[i].r = *ptr++;
-            scratch_pal[i].g = *ptr++;
-            scratch_pal[i].b = *ptr++;
+            for ( i=0; i<nbrcolorsfinal*3; i++ )
+                colormap[i] = (Uint8)( i / 3 * 255 / ( nbrcolorsfinal - 1 ) );
+            nbcolors = nbrcolorsfinal;
         }
 
         /* Amiga EHB mode (Extra-Half-Bright) */
@@ -441,215 +411,85 @@ static ILboolean load_ilbm(void)
         /* The 32 last colors are the same but divided by 2 */
         /* Some Amiga pictures save 64 colors with 32 last wrong colors, */
         /* they shouldn't !, and here we overwrite these 32 bad colors. */
-        if ( (nbcolors==32 || flagEHB ) && (1<<bmhd.planes)==64 )
+        if ( ( nbcolors==32 || flagEHB ) && bmhd.planes == 6 && !pbm )
         {
             nbcolors = 64;
-            ptr = &colormap[0];
-            for ( i=32; i<64; i++ )
-            {
-                scratch_pal[i].r = (*ptr++)/2;
-                scratch_pal[i].g = (*ptr++)/2;
-                scratch_pal[i].b = (*ptr++)/2;
-            }
+            for ( i=0; i<32*3; i++ )
+                colormap[32*3+i] = colormap[i] / 2;
         }
 
         /* If nbcolors < 2^nbplanes, repeat the colormap */
-        /* This happens when pictures have a stencil mask */
-        if ( nbrcolorsfinal > (1<<bmhd.planes) ) {
-            nbrcolorsfinal = (1<<bmhd.planes);
-        }
-        for ( i=nbcolors; i < (Uint32)nbrcolorsfinal; i++ )
-        {
-            scratch_pal[i].r = scratch_pal[i%nbcolors].r;
-            scratch_pal[i].g = scratch_pal[i%nbcolors].g;
-            scratch_pal[i].b = scratch_pal[i%nbcolors].b;
-        }
-
-        if ( !pbm )
-            ilRegisterPal( scratch_pal, 3*nbrcolorsfinal, IL_PAL_RGB24 );
-
+        for ( i=nbcolors*3; i<nbrcolorsfinal*3; i++ )
+            colormap[i] = colormap[i - nbcolors*3];
+
+        iCurImage->Pal.Palette = (ILubyte*)ialloc( nbrcolorsfinal*3 );
+        if ( iCurImage->Pal.Palette == NULL )
+            return IL_FALSE;
+        memcpy( iCurImage->Pal.Palette, colormap, nbrcolorsfinal*3 );
+        iCurImage->Pal.PalSize = nbrcolorsfinal*3;
+        iCurImage->Pal.PalType = IL_PAL_RGB24;
     }
 
     /* Get the bitmap */
 
-    for ( h=0; h < bmhd.h; h++ )
+    if ( bmhd.mask == 1 && !pbm )      /* There is a mask ( 'stencil' ) */
+        ++nbplanes;
+    MiniBuf = (Uint8*)ialloc( bytesperline * nbplanes );
+    if ( MiniBuf == NULL )
+        return IL_FALSE;
+
+    for ( y=0; y < bmhd.h; y++ )
     {
         /* uncompress the datas of each planes */
 
         for ( plane=0; plane < nbplanes; plane++ )
         {
-            ptr = MiniBuf + ( plane * bytesperline );
-
-            remainingbytes = bytesperline;
-
-            if ( bmhd.tcomp == 1 )      /* Datas are compressed */
+            if ( !read_row( MiniBuf + plane * bytesperline, bytesperline, bmhd.tcomp ) )
             {
-                do
-                {
-                    if ( !SDL_RWread( src, &count, 1, 1 ) )
-                    {
-                        error=(char*)"error reading BODY chunk";
-                        goto done;
-                    }
-
-                    if ( count & 0x80 )
-                    {
-                        count ^= 0xFF;
-                        count += 2; /* now it */
-
-                        if ( ( count > remainingbytes ) || !SDL_RWread( src, &color, 1, 1 ) )
-                        {
-                            if( count>remainingbytes)
-                                ilSetError(IL_ILLEGAL_FILE_VALUE );
-                           error=(char*)"error reading BODY chunk";
-                            goto done;
-                        }
-                        memset( ptr, color, count );
-                    }
-                    else
-                    {
-                        ++count;
-
-                        if ( ( count > remainingbytes ) || !SDL_RWread( src, ptr, count, 1 ) )
-                        {
-                            if( count>remainingbytes)
-                                ilSetError(IL_ILLEGAL_FILE_VALUE );
-                           error=(char*)"error reading BODY chunk";
-                            goto done;
-                        }
-                    }
-
-                    ptr += count;
-                    remainingbytes -= count;
-
-                } while ( remainingbytes > 0 );
-            }
-            else
-            {
-                if ( !SDL_RWread( src, ptr, bytesperline, 1 ) )
-                {
-                    error=(char*)"error reading BODY chunk";
-                    goto done;
-                }
+                ifree( MiniBuf );
+                return IL_FALSE;
             }
         }
 
         /* One line has been read, store it ! */
 
-        ptr = ilGetData();
-        if ( nbplanes==24 || flagHAM==1 )
-            ptr += h * width * 3;
-        else
-            ptr += h * width;
-
-        if ( pbm )                 /* File format : 'Packed Bitmap' */
+        ptr = iCurImage->Data + y * iCurImage->Bps;
+        if ( pbm )                     /* File format : 'Packed Bitmap' */
         {
-           memcpy( ptr, MiniBuf, width );
+            memcpy( ptr, MiniBuf, bmhd.w );
+            continue;
         }
-        else        /* We have to un-interlace the bits ! */
+
+        memcpy( direct, colormap, 3 );  /* HAM lines start with the color of the border */
+        for ( x=0; x < bmhd.w; x++ )
         {
-            if ( nbplanes!=24 && flagHAM==0 )
+            /* We have to un-interlace the bits ! */
+            pixel = 0;
+            for ( plane=0; plane < bmhd.planes; plane++ )
+                pixel |= (Uint32)( ( MiniBuf[plane*bytesperline + x/8] >> ( 7 - x%8 ) ) & 1 ) << plane;
+
+            if ( flagHAM )
             {
-                size = ( width + 7 ) / 8;
-
-                for ( i=0; i < size; i++ )
-                {
-                    memset( ptr, 0, 8 );
-
-                    for ( plane=0; plane < nbplanes; plane++ )
-                    {
-                        color = *( MiniBuf + i + ( plane * bytesperline ) );
-                        msk = 0x80;
-
-                        for ( j=0; j<8; j++ )
-                        {
-                            if ( ( plane + j ) <= 7 ) ptr[j] |= (Uint8)( color & msk ) >> ( 7 - plane - j );
-                            else                        ptr[j] |= (Uint8)( color & msk ) << ( plane + j - 7 );
-
-                            msk >>= 1;
-                        }
-                    }
-                    ptr += 8;
-                }
+                bits = bmhd.planes - 2;
+                c = pixel & ( ( 1 << bits ) - 1 );
+                if ( pixel >> bits == 0 )   /* take direct color from palette */
+                    memcpy( direct, colormap + c*3, 3 );
+                else                        /* modify only the blue (1), red (2) or green (3) component */
+                    direct[pixel >> bits == 1 ? 2 : pixel >> bits == 2 ? 0 : 1] = (Uint8)( c << ( 8 - bits ) | c >> ( 2*bits - 8 ) );
+                memcpy( ptr + x*3, direct, 3 );
             }
-            else
+            else if ( bmhd.planes == 24 )   /* 24 bitplanes ILBM : R0...R7,G0...G7,B0...B7 */
             {
-                Uint32 finalcolor = 0;
-                size = ( width + 7 ) / 8;
-                /* 24 bitplanes ILBM : R0...R7,G0...G7,B0...B7 */
-                /* or HAM (6 bitplanes) or HAM8 (8 bitplanes) modes */
-                for ( i=0; i<width; i=i+8 )
-                {
-                    Uint8 maskBit = 0x80;
-                    for ( j=0; j<8; j++ )
-                    {
-                        Uint32 pixelcolor = 0;
-                        Uint32 maskColor = 1;
-                        Uint8 dataBody;
-                        for ( plane=0; plane < nbplanes; plane++ )
-                        {
-                            dataBody = MiniBuf[ plane*size+i/8 ];
-                            if ( dataBody&maskBit )
-                                pixelcolor = pixelcolor | maskColor;
-                            maskColor = maskColor<<1;
-                        }
-                        /* HAM : 12 bits RGB image (4 bits per color component) */
-                        /* HAM8 : 18 bits RGB image (6 bits per color component) */
-                        if ( flagHAM )
-                        {
-                            switch( pixelcolor>>(nbplanes-2) )
-                            {
-                                case 0: /* take direct color from palette */
-                                    finalcolor = colormap[ pixelcolor*3 ] + (colormap[ pixelcolor*3+1 ]<<8) + (colormap[ pixelcolor*3+2 ]<<16);
-                                    break;
-                                case 1: /* modify only blue component */
-                                    finalcolor = finalcolor&0x00FFFF;
-                                    finalcolor = finalcolor | (pixelcolor<<(16+(10-nbplanes)));
-                                    break;
-                                case 2: /* modify only red component */
-                                    finalcolor = finalcolor&0xFFFF00;
-                                    finalcolor = finalcolor | pixelcolor<<(10-nbplanes);
-                                    break;
-                                case 3: /* modify only green component */
-                                    finalcolor = finalcolor&0xFF00FF;
-                                    finalcolor = finalcolor | (pixelcolor<<(8+(10-nbplanes)));
-                                    break;
-                            }
-                        }
-                        else
-                        {
-                            finalcolor = pixelcolor;
-                        }
-#if defined( __LITTLE_ENDIAN__ )
-                        {
-                            *ptr++ = (Uint8)(finalcolor>>16);
-                            *ptr++ = (Uint8)(finalcolor>>8);
-                            *ptr++ = (Uint8)(finalcolor);
-                        }
-#else
-                        {
-                            *ptr++ = (Uint8)(finalcolor);
-                            *ptr++ = (Uint8)(finalcolor>>8);
-                            *ptr++ = (Uint8)(finalcolor>>16);
-                        }
-#endif
-                        maskBit = maskBit>>1;
-                    }
-                }
+                ptr[x*3]   = (Uint8)( pixel );
+                ptr[x*3+1] = (Uint8)( pixel >> 8 );
+                ptr[x*3+2] = (Uint8)( pixel >> 16 );
             }
+            else
+                ptr[x] = (Uint8)pixel;
         }
     }
 
-done:
-
-    if ( MiniBuf ) free( MiniBuf );
-
-    if ( error )
-    {
-        /* fprintf(stderr,"il_ilbm.c: '%s'\n",error); */
-        return IL_FALSE;
-    }
-
+    ifree( MiniBuf );
     return IL_TRUE;
 }
 
diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 61f6ba4..7b6c608 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -18,7 +18,6 @@
 
 ILboolean	iLoadSunInternal(void);
 ILboolean	iIsValidSun(void);
-ILuint		iSunGetRle(ILubyte *Data, ILuint Length);
 
 typedef struct SUNHEAD
 {
@@ -100,14 +99,17 @@ ILboolean ilIsValidSunL(const void *Lump, ILuint Size)
 // Internal function used to get the Sun header from the current file.
 ILboolean iGetSunHead(SUNHEAD *Header)
 {
-	Header->MagicNumber = GetBigUInt();
-	Header->Width = GetBigUInt();
-	Header->Height = GetBigUInt();
-	Header->Depth = GetBigUInt();
-	Header->Length = GetBigUInt();
-	Header->Type = GetBigUInt();
-	Header->ColorMapType = GetBigUInt();
-	Header->ColorMapLength = GetBigUInt();
+	if (iread(Header, 1, sizeof(SUNHEAD)) != sizeof(SUNHEAD))
+		return IL_FALSE;
+
+	BigUInt(&Header->MagicNumber);
+	BigUInt(&Header->Width);
+	BigUInt(&Header->Height);
+	BigUInt(&Header->Depth);
+	BigUInt(&Header->Length);
+	BigUInt(&Header->Type);
+	BigUInt(&Header->ColorMapType);
+	BigUInt(&Header->ColorMapLength);
 
 	return IL_TRUE;
 }
@@ -130,10 +132,6 @@ ILboolean iCheckSun(SUNHEAD *Header)
 	// Color map cannot be 0 if there is a map indicated.
 	if (Header->ColorMapType > IL_SUN_NO_MAP && Header->ColorMapLength == 0)
 		return IL_FALSE;
-	//@TODO: These wouldn't make sense.  Are they valid somehow?  Find out...
-	if ((Header->Depth == 1 || Header->Depth == 32) && Header->Type == IL_SUN_BYTE_ENC)
-		return IL_FALSE;
-
 	return IL_TRUE;
 }
 
@@ -196,201 +194,155 @@ ILboolean ilLoadSunL(const void *Lump, ILuint Size)
 }
 
 
+// State of the run-length decoder: runs may continue on the next scanline.
+typedef struct SUNRLE
+{
+	ILboolean	Encoded;
+	ILint		Count;
+	ILubyte		Value;
+} SUNRLE;
+
+
+static ILboolean iSunRead(SUNRLE *Rle, ILubyte *Data, ILuint Length)
+{
+	ILuint	i;
+	ILint	Flag, Count;
+
+	if (!Rle->Encoded)
+		return iread(Data, 1, Length) == Length;
+
+	for (i = 0; i < Length; ) {
+		if (Rle->Count > 0) {
+			Data[i++] = Rle->Value;
+			Rle->Count--;
+			continue;
+		}
+
+		if ((Flag = igetc()) == IL_EOF)
+			return IL_FALSE;
+		if (Flag == 0x80) {  // Run follows (or 1 byte of 0x80)
+			if ((Count = igetc()) == IL_EOF)
+				return IL_FALSE;
+			if (Count > 0) {
+				if ((Flag = igetc()) == IL_EOF)
+					return IL_FALSE;
+			}
+			Rle->Count = Count;  // One more byte is stored right now.
+			Rle->Value = (ILubyte)Flag;
+		}
+		Data[i++] = (ILubyte)Flag;
+	}
+
+	return IL_TRUE;
+}
+
+
 ILboolean iLoadSunInternal(void)
 {
-	SUNHEAD	Header;
-	BITFILE	*File;
-	ILuint	i, j, Padding, Offset, BytesRead;
-	ILubyte	PaddingData[16];
+	SUNHEAD		Header;
+	SUNRLE		Rle;
+	ILubyte		*Map, *Line, *Data;
+	ILuint		i, x, y, Colors, LineSize, Channels = 3;
+	ILenum		Format;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	//@TODO: Right now, iGetSunHead cannot fail.
 	if (!iGetSunHead(&Header) || !iCheckSun(&Header)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
-	switch (Header.Depth)
-	{
-		case 1:  //@TODO: Find a file to test this on.
-			File = bfile(iGetFile());
-			if (File == NULL)
-				return IL_FALSE;
+	if (Header.Depth == 1 || (Header.Depth == 8 && Header.ColorMapType != IL_SUN_NO_MAP)) {
+		Format = IL_COLOUR_INDEX;
+		Channels = 1;
+	}
+	else if (Header.Depth == 8) {
+		Format = IL_LUMINANCE;
+		Channels = 1;
+	}
+	else if (Header.Type == IL_SUN_RGB)
+		Format = IL_RGB;
+	else
+		Format = IL_BGR;
 
-			if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+	if (!ilTexImage(Header.Width, Header.Height, 1, (ILubyte)Channels, Format, IL_UNSIGNED_BYTE, NULL))
+		return IL_FALSE;
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+
+	if (Format == IL_COLOUR_INDEX && Header.ColorMapType != IL_SUN_NO_MAP) {
+		// The color map has all the red values, then all the green ones and then all the blue ones.
+		Colors = Header.ColorMapLength / 3;
+		if (Header.ColorMapLength % 3 != 0 || Colors > 256) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
+		}
+		Map = (ILubyte*)ialloc(Header.ColorMapLength);
+		iCurImage->Pal.Palette = (ILubyte*)ialloc(Header.ColorMapLength);
+		if (Map == NULL || iCurImage->Pal.Palette == NULL) {
+			ifree(Map);
+			return IL_FALSE;
+		}
+		if (iread(Map, 1, Header.ColorMapLength) != Header.ColorMapLength) {
+			ifree(Map);
+			return IL_FALSE;
+		}
+		for (i = 0; i < Header.ColorMapLength; i++) {
+			iCurImage->Pal.Palette[i] = Map[(i % 3) * Colors + i / 3];
+		}
+		ifree(Map);
+		iCurImage->Pal.PalSize = Header.ColorMapLength;
+		iCurImage->Pal.PalType = IL_PAL_RGB24;
+	}
+	else {
+		// Bits that are set are black when there is no color map.
+		if (Format == IL_COLOUR_INDEX) {
+			iCurImage->Pal.Palette = (ILubyte*)icalloc(2, 3);
+			if (iCurImage->Pal.Palette == NULL)
 				return IL_FALSE;
-			if (Header.ColorMapLength != 0) {
-				// Data should be an index into the color map, but the color map should only be RGB (6 bytes, 2 entries).
-				if (Header.ColorMapLength != 6) {
-					ilSetError(IL_INVALID_FILE_HEADER);
-					return IL_FALSE;
-				}
-			}
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(6);  // Just need 2 entries in the color map.
-			if (Header.ColorMapLength == 0) {  // Create the color map
-				iCurImage->Pal.Palette[0] = 0x00;  // Entry for black
-				iCurImage->Pal.Palette[1] = 0x00;
-				iCurImage->Pal.Palette[2] = 0x00;
-				iCurImage->Pal.Palette[3] = 0xFF;  // Entry for white
-				iCurImage->Pal.Palette[4] = 0xFF;
-				iCurImage->Pal.Palette[5] = 0xFF;
-			}
-			else {
-				iread(iCurImage->Pal.Palette, 1, 6);  // Read in the color map.
-			}
+			memset(iCurImage->Pal.Palette, 0xFF, 3);
 			iCurImage->Pal.PalSize = 6;
 			iCurImage->Pal.PalType = IL_PAL_RGB24;
-
-			Padding = (16 - (iCurImage->Width % 16)) % 16;  // Has to be aligned on a 16-bit boundary.  The rest is padding.
-
-			// Reads the bits
-			for (i = 0; i < iCurImage->Height; i++) {
-				bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
-				//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
-				bread(PaddingData, 1, Padding, File);  // Skip padding bits.
-			}
-			break;
-
-
-		case 8:
-			if (Header.ColorMapType == IL_SUN_NO_MAP) {  // Greyscale image
-				if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
-			else {  // Colour-mapped image
-				if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-				iCurImage->Pal.Palette = (ILubyte*)ialloc(Header.ColorMapLength);  // Allocate color map.
-				if (iCurImage->Pal.Palette == NULL)
-					return IL_FALSE;
-				if (iread(iCurImage->Pal.Palette, 1, Header.ColorMapLength) != Header.ColorMapLength) {  // Read color map.
-					ilSetError(IL_FILE_READ_ERROR);
-					return IL_FALSE;
-				}
-
-				iCurImage->Pal.PalSize = Header.ColorMapLength;
-				iCurImage->Pal.PalType = IL_PAL_RGB24;
-			}
-
-			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
-				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
-				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width, 1, iCurImage->Bps);
-					if (Padding)  // Only possible for padding to be 0 or 1.
-						igetc();
-				}
-			}
-			else {  // RLE image data
-				for (i = 0; i < iCurImage->Height; i++) {
-					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
-					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
-						igetc();  // Skip padding
-				}
-			}
-			break;
-
-		case 24:
-			if (Header.ColorMapLength > 0)  // Ignore any possible colormaps.
-				iseek(Header.ColorMapLength, IL_SEEK_CUR);
-
-			if (Header.Type == IL_SUN_RGB) {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
-			else {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
-
-			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
-				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
-				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width * 3, 1, iCurImage->Bps);
-					if (Padding)  // Only possible for padding to be 0 or 1.
-						igetc();
-				}
-			}
-			else {  // RLE image data
-				for (i = 0; i < iCurImage->Height; i++) {
-					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
-					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
-						igetc();  // Skip padding
-				}
-			}
-
-			break;
-
-		case 32:
-			if (Header.ColorMapLength > 0)  // Ignore any possible colormaps.
-				iseek(Header.ColorMapLength, IL_SEEK_CUR);
-
-			if (Header.Type == IL_SUN_RGB) {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
-			else {
-				if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
-					return IL_FALSE;
-			}
-
-			// There is no padding at the end of each scanline.
-			Offset = 0;
-			for (i = 0; i < Header.Height; i++) {
-				for (j = 0; j < Header.Width; j++) {
-					igetc();  // There is a pad byte before each pixel.
-					iCurImage->Data[Offset]   = igetc();
-					iCurImage->Data[Offset+1] = igetc();
-					iCurImage->Data[Offset+2] = igetc();
-				}
-			}
-			break;
-
-
-		default:  // Should have already been checked with iGetSunHead.
+		}
+		if (Header.ColorMapLength > 0 && iseek(Header.ColorMapLength, IL_SEEK_CUR))  // Ignore any possible colormaps.
 			return IL_FALSE;
 	}
 
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	return ilFixImage();
-}
-
-
-ILuint iSunGetRle(ILubyte *Data, ILuint Length)
-{
-	ILuint	i = 0, j;
-	ILubyte	Flag, Value;
-	ILuint	Count;
+	// Each scanline is padded to a 16-bit boundary.
+	LineSize = (ILuint)(((ILuint64)Header.Width * Header.Depth + 15) / 16 * 2);
+	Line = (ILubyte*)ialloc(LineSize);
+	if (Line == NULL)
+		return IL_FALSE;
 
-	for (i = 0; i < Length; ) {
-		Flag = igetc();
-		if (Flag == 0x80) {  // Run follows (or 1 byte of 0x80)
-			Count = igetc();
-			if (Count == 0) {  // 1 pixel of value (0x80)
-				*Data = 0x80;
-				Data++;
-				i++;
-			}
-			else {  // Here we have a run.
-				Value = igetc();
-				Count++;  // Should really be Count+1
-				for (j = 0; j < Count && i + j < Length; j++, Data++) {
-					*Data = Value;
-				}
-				i += Count;
-			}
+	imemclear(&Rle, sizeof(Rle));
+	Rle.Encoded = (Header.Type == IL_SUN_BYTE_ENC);
+	for (y = 0; y < Header.Height; y++) {
+		if (!iSunRead(&Rle, Line, LineSize)) {
+			ifree(Line);
+			return IL_FALSE;
 		}
-		else {  // 1 byte of this value (cannot be 0x80)
-			*Data = Flag;
-			Data++;
-			i++;
+		Data = iCurImage->Data + (size_t)y * iCurImage->Bps;
+		switch (Header.Depth)
+		{
+			case 1:
+				for (x = 0; x < Header.Width; x++) {
+					Data[x] = (Line[x / 8] >> (7 - x % 8)) & 1;
+				}
+				break;
+			case 32:
+				for (x = 0; x < Header.Width; x++) {  // There is a pad byte before each pixel.
+					memcpy(Data + x * 3, Line + x * 4 + 1, 3);
+				}
+				break;
+			default:
+				memcpy(Data, Line, iCurImage->Bps);
 		}
 	}
+	ifree(Line);
 
-	return i;
+	return ilFixImage();
 }
 
 
-- 
2.43.0


From 3f96897d5655f1355f38b28797815b3a4c8f80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 106/161] fix: decode the pages of DCX files like the PCX files
 they are

---
 DevIL/src-IL/include/il_dcx.h |  28 ---
 DevIL/src-IL/include/il_pcx.h |   1 +
 DevIL/src-IL/src/il_dcx.cpp   | 386 +++++-----------------------------
 3 files changed, 52 insertions(+), 363 deletions(-)

diff --git a/DevIL/src-IL/include/il_dcx.h b/DevIL/src-IL/include/il_dcx.h
index c8522b7..f6926b1 100644
--- a/DevIL/src-IL/include/il_dcx.h
+++ b/DevIL/src-IL/include/il_dcx.h
@@ -17,36 +17,8 @@
 #include "il_internal.h"
 
 
-#ifdef _WIN32
-#pragma pack(push, packed_struct, 1)
-#endif
-typedef struct DCXHEAD
-{
-	ILubyte		Manufacturer;
-	ILubyte		Version;
-	ILubyte		Encoding;
-	ILubyte		Bpp;
-	ILushort	Xmin, Ymin, Xmax, Ymax;
-	ILushort	HDpi;
-	ILushort	VDpi;
-	ILubyte		ColMap[48];
-	ILubyte		Reserved;
-	ILubyte		NumPlanes;
-	ILushort	Bps;
-	ILushort	PaletteInfo;
-	ILushort	HScreenSize;
-	ILushort	VScreenSize;
-	ILubyte		Filler[54];
-} IL_PACKSTRUCT DCXHEAD;
-#ifdef _WIN32
-#pragma pack(pop, packed_struct)
-#endif
-
 // For checking and reading
 ILboolean iIsValidDcx(void);
-ILboolean iCheckDcx(DCXHEAD *Header);
 ILboolean iLoadDcxInternal(void);
-ILimage*  iUncompressDcx(DCXHEAD *Header);
-ILimage*  iUncompressDcxSmall(DCXHEAD *Header);
 
 #endif//PCX_H
diff --git a/DevIL/src-IL/include/il_pcx.h b/DevIL/src-IL/include/il_pcx.h
index 3b161c3..768824d 100644
--- a/DevIL/src-IL/include/il_pcx.h
+++ b/DevIL/src-IL/include/il_pcx.h
@@ -44,6 +44,7 @@ typedef struct PCXHEAD
 
 // For checking and reading
 ILboolean iIsValidPcx(void);
+ILboolean iGetPcxHead(PCXHEAD *Head);
 ILboolean iCheckPcx(PCXHEAD *Header);
 ILboolean iLoadPcxInternal(void);
 ILboolean iSavePcxInternal(void);
diff --git a/DevIL/src-IL/src/il_dcx.cpp b/DevIL/src-IL/src/il_dcx.cpp
index efe1314..cb08ac9 100644
--- a/DevIL/src-IL/src/il_dcx.cpp
+++ b/DevIL/src-IL/src/il_dcx.cpp
@@ -14,6 +14,9 @@
 #include "il_internal.h"
 #ifndef IL_NO_DCX
 #include "il_dcx.h"
+#ifndef IL_NO_PCX
+#include "il_pcx.h"
+#endif
 
 
 //! Checks if the file specified in FileName is a valid .dcx file.
@@ -63,24 +66,6 @@ ILboolean ilIsValidDcxL(const void *Lump, ILuint Size)
 }
 
 
-// Internal function obtain the .dcx header from the current file.
-ILboolean iGetDcxHead(DCXHEAD *Head)
-{
-	Head->Xmin = GetLittleUShort();
-	Head->Ymin = GetLittleUShort();
-	Head->Xmax = GetLittleUShort();
-	Head->Ymax = GetLittleUShort();
-	Head->HDpi = GetLittleUShort();
-	Head->VDpi = GetLittleUShort();
-	Head->Bps = GetLittleUShort();
-	Head->PaletteInfo = GetLittleUShort();
-	Head->HScreenSize = GetLittleUShort();
-	Head->VScreenSize = GetLittleUShort();
-
-	return IL_TRUE;
-}
-
-
 // Internal function to get the header and check it.
 ILboolean iIsValidDcx()
 {
@@ -90,42 +75,11 @@ ILboolean iIsValidDcx()
 		return IL_FALSE;
 	iseek(-4, IL_SEEK_CUR);
 
+	UInt(&Signature);
 	return (Signature == 987654321);
 }
 
 
-// Internal function used to check if the HEADER is a valid .dcx header.
-// Should we also do a check on Header->Bpp?
-ILboolean iCheckDcx(DCXHEAD *Header)
-{
-	ILuint	Test, i;
-
-	// There are other versions, but I am not supporting them as of yet.
-	//	Got rid of the Reserved check, because I've seen some .dcx files with invalid values in it.
-	if (Header->Manufacturer != 10 || Header->Version != 5 || Header->Encoding != 1/* || Header->Reserved != 0*/)
-		return IL_FALSE;
-
-	// See if the padding size is correct
-	Test = Header->Xmax - Header->Xmin + 1;
-	/*if (Header->Bpp >= 8) {
-		if (Test & 1) {
-			if (Header->Bps != Test + 1)
-				return IL_FALSE;
-		}
-		else {
-			if (Header->Bps != Test)  // No padding
-				return IL_FALSE;
-		}
-	}*/
-
-	for (i = 0; i < 54; i++) {
-		if (Header->Filler[i] != 0)
-			return IL_FALSE;
-	}
-
-	return IL_TRUE;
-}
-
 
 //! Reads a .dcx file
 ILboolean ilLoadDcx(ILconst_string FileName)
@@ -171,315 +125,77 @@ ILboolean ilLoadDcxL(const void *Lump, ILuint Size) {
 // Internal function used to load the .dcx.
 ILboolean iLoadDcxInternal()
 {
-	DCXHEAD	Header;
-	ILuint	Signature, i, Entries[1024], Num = 0;
-	ILimage	*Image, *Base;
+#ifndef IL_NO_PCX
+	PCXHEAD		Header;
+	ILimage		*Base, *Image, *Last = NULL;
+	ILuint		Signature, Num, i, Entries[1024];
+	ILboolean	Loaded;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (!iIsValidDcx())
+	if (!iIsValidDcx()) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+	if (iread(&Signature, 1, 4) != 4)
 		return IL_FALSE;
-	iread(&Signature, 1, 4);
 
-	do {
+	// The offsets of the pages end with a 0, unless there are 1024 of them.
+	for (Num = 0; Num < 1024; Num++) {
 		if (iread(&Entries[Num], 1, 4) != 4)
 			return IL_FALSE;
-		Num++;
-	} while (Entries[Num-1] != 0);
-
-	for (i = 0; i < Num; i++) {
-		iseek(Entries[i], IL_SEEK_SET);
-		iGetDcxHead(&Header);
-		/*if (!iCheckDcx(&Header)) {
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
-		}*/
-
-		Image = iUncompressDcx(&Header);
-		if (Image == NULL)
+		UInt(&Entries[Num]);
+		if (Entries[Num] == 0)
+			break;
+		if (Entries[Num] > 0x7FFFFFFF) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
-
-		if (i == 0) {
-			ilTexImage(Image->Width, Image->Height, 1, Image->Bpp, Image->Format, Image->Type, Image->Data);
-			Base = iCurImage;
-			Base->Origin = IL_ORIGIN_UPPER_LEFT;
-			ilCloseImage(Image);
-		}
-		else {
-			iCurImage->Next = Image;
-			iCurImage = iCurImage->Next;
 		}
 	}
-
-	return ilFixImage();
-}
-
-
-// Internal function to uncompress the .dcx (all .dcx files are rle compressed)
-ILimage *iUncompressDcx(DCXHEAD *Header)
-{
-	ILubyte		ByteHead, Colour, *ScanLine = NULL /* Only one plane */;
-	ILuint		c, i, x, y;//, Read = 0;
-	ILimage		*Image = NULL;
-
-	if (Header->Bpp < 8) {
-		/*ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;*/
-		return iUncompressDcxSmall(Header);
-	}
-
-	Image = ilNewImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 1);
-	if (Image == NULL)
-		return NULL;
-	/*if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (Num == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
-	}*/
-	Image->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	ScanLine = (ILubyte*)ialloc(Header->Bps);
-	if (ScanLine == NULL)
-		goto dcx_error;
-
-	switch (Image->Bpp)
-	{
-		case 1:
-			Image->Format = IL_COLOUR_INDEX;
-			Image->Pal.PalType = IL_PAL_RGB24;
-			Image->Pal.PalSize = 256 * 3; // Need to find out for sure...
-			Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
-			if (Image->Pal.Palette == NULL)
-				goto dcx_error;
-			break;
-		//case 2:  // No 16-bit images in the dcx format!
-		case 3:
-			Image->Format = IL_RGB;
-			Image->Pal.Palette = NULL;
-			Image->Pal.PalSize = 0;
-			Image->Pal.PalType = IL_PAL_NONE;
-			break;
-		case 4:
-			Image->Format = IL_RGBA;
-			Image->Pal.Palette = NULL;
-			Image->Pal.PalSize = 0;
-			Image->Pal.PalType = IL_PAL_NONE;
-			break;
-
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			goto dcx_error;
 	}
 
-
-		/*StartPos = itell();
-		Compressed = (ILubyte*)ialloc(Image->SizeOfData * 4 / 3);
-		iread(Compressed, 1, Image->SizeOfData * 4 / 3);
-
-		for (y = 0; y < Image->Height; y++) {
-			for (c = 0; c < Image->Bpp; c++) {
-				x = 0;
-				while (x < Header->Bps) {
-					ByteHead = Compressed[Read++];
-					if ((ByteHead & 0xC0) == 0xC0) {
-						ByteHead &= 0x3F;
-						Colour = Compressed[Read++];
-						for (i = 0; i < ByteHead; i++) {
-							ScanLine[x++] = Colour;
-						}
-					}
-					else {
-						ScanLine[x++] = ByteHead;
-					}
-				}
-
-				for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes ;)
-					Image->Data[y * Image->Bps + x * Image->Bpp + c] = ScanLine[x];
-				}
-			}
-		}
-
-		ifree(Compressed);
-		iseek(StartPos + Read, IL_SEEK_SET);*/
-
-	//changed 2003-09-01
-	if (iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
-		iPreCache(iCurImage->SizeOfData);
-
-	//TODO: because the .pcx-code was broken this
-	//code is probably broken, too
-	for (y = 0; y < Image->Height; y++) {
-		for (c = 0; c < Image->Bpp; c++) {
-			x = 0;
-			while (x < Header->Bps) {
-				if (iread(&ByteHead, 1, 1) != 1) {
-					iUnCache();
-					goto dcx_error;
-				}
-				if ((ByteHead & 0xC0) == 0xC0) {
-					ByteHead &= 0x3F;
-					if (iread(&Colour, 1, 1) != 1) {
-						iUnCache();
-						goto dcx_error;
-					}
-					for (i = 0; i < ByteHead; i++) {
-						ScanLine[x++] = Colour;
-					}
-				}
-				else {
-					ScanLine[x++] = ByteHead;
-				}
-			}
-
-			for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes ;)
-				Image->Data[y * Image->Bps + x * Image->Bpp + c] = ScanLine[x];
-			}
+	// Every page is a .pcx file.
+	Base = iCurImage;
+	for (i = 0; i < Num; i++) {
+		if (iseek(Entries[i], IL_SEEK_SET) || !iGetPcxHead(&Header))
+			return IL_FALSE;
+		if (!iCheckPcx(&Header)) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
 		}
-	}
 
-	iUnCache();
-
-
-	ifree(ScanLine);
-
-	// Read in the palette
-	if (Image->Bpp == 1) {
-		ByteHead = igetc();	// the value 12, because it signals there's a palette for some reason...
-							//	We should do a check to make certain it's 12...
-		if (ByteHead != 12)
-			iseek(-1, IL_SEEK_CUR);
-		if (iread(Image->Pal.Palette, 1, Image->Pal.PalSize) != Image->Pal.PalSize) {
-			ilCloseImage(Image);
-			return NULL;
+		if (i == 0) {
+			if (!iUncompressPcx(&Header))
+				return IL_FALSE;
+			Last = Base;
+			continue;
 		}
-	}
-
-	return Image;
-
-dcx_error:
-	ifree(ScanLine);
-	ilCloseImage(Image);
-	return NULL;
-}
 
-
-ILimage *iUncompressDcxSmall(DCXHEAD *Header)
-{
-	ILuint	i = 0, j, k, c, d, x, y, Bps;
-	ILubyte	HeadByte, Colour, Data = 0, *ScanLine = NULL;
-	ILimage	*Image;
-
-	Image = ilNewImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 1);
-	if (Image == NULL)
-		return NULL;
-
-	/*if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}*/
-	Image->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	switch (Header->NumPlanes)
-	{
-		case 1:
-			Image->Format = IL_LUMINANCE;
-			break;
-		case 4:
-			Image->Format = IL_COLOUR_INDEX;
-			break;
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			ilCloseImage(Image);
-			return NULL;
-	}
-
-	if (Header->NumPlanes == 1) {
-		for (j = 0; j < Image->Height; j++) {
-			i = 0;
-			while (i < Image->Width) {
-				if (iread(&HeadByte, 1, 1) != 1)
-					goto file_read_error;
-				if (HeadByte >= 192) {
-					HeadByte -= 192;
-					if (iread(&Data, 1, 1) != 1)
-						goto file_read_error;
-
-					for (c = 0; c < HeadByte; c++) {
-						k = 128;
-						for (d = 0; d < 8 && i < Image->Width; d++) {
-							Image->Data[j * Image->Width + i++] = (!!(Data & k) == 1 ? 255 : 0);
-							k >>= 1;
-						}
-					}
-				}
-				else {
-					k = 128;
-					for (c = 0; c < 8 && i < Image->Width; c++) {
-						Image->Data[j * Image->Width + i++] = (!!(HeadByte & k) == 1 ? 255 : 0);
-						k >>= 1;
-					}
-				}
-			}
-			if (Data != 0)
-				igetc();  // Skip pad byte if last byte not a 0
-		}
-	}
-	else {   // 4-bit images
-		Bps = Header->Bps * Header->NumPlanes * 2;
-		Image->Pal.Palette = (ILubyte*)ialloc(16 * 3);  // Size of palette always (48 bytes).
-		Image->Pal.PalSize = 16 * 3;
-		Image->Pal.PalType = IL_PAL_RGB24;
-		ScanLine = (ILubyte*)ialloc(Bps);
-		if (Image->Pal.Palette == NULL || ScanLine == NULL) {
-			ifree(ScanLine);
+		Image = ilNewImage(1, 1, 1, 1, 1);
+		if (Image == NULL)
+			return IL_FALSE;
+		iCurImage = Image;
+		Loaded = iUncompressPcx(&Header);
+		iCurImage = Base;
+		if (!Loaded) {
 			ilCloseImage(Image);
-			return NULL;
-		}
-
-		memcpy(Image->Pal.Palette, Header->ColMap, 16 * 3);
-		imemclear(Image->Data, Image->SizeOfData);  // Since we do a += later.
-
-		for (y = 0; y < Image->Height; y++) {
-			for (c = 0; c < Header->NumPlanes; c++) {
-				x = 0;
-				while (x < Bps) {
-					if (iread(&HeadByte, 1, 1) != 1)
-						goto file_read_error;
-					if ((HeadByte & 0xC0) == 0xC0) {
-						HeadByte &= 0x3F;
-						if (iread(&Colour, 1, 1) != 1)
-							goto file_read_error;
-						for (i = 0; i < HeadByte; i++) {
-							k = 128;
-							for (j = 0; j < 8; j++) {
-								ScanLine[x++] = !!(Colour & k);
-								k >>= 1;
-							}
-						}
-					}
-					else {
-						k = 128;
-						for (j = 0; j < 8; j++) {
-							ScanLine[x++] = !!(HeadByte & k);
-							k >>= 1;
-						}
-					}
-				}
-
-				for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes. ;)
-					Image->Data[y * Image->Width + x] += ScanLine[x] << c;
-				}
-			}
+			return IL_FALSE;
 		}
-		ifree(ScanLine);
+		Last->Next = Image;
+		Last = Image;
 	}
 
-	return Image;
-
-file_read_error:
-	ifree(ScanLine);
-	ilCloseImage(Image);
-	return NULL;
+	return ilFixImage();
+#else
+	ilSetError(IL_FORMAT_NOT_SUPPORTED);
+	return IL_FALSE;
+#endif
 }
 
 #endif//IL_NO_DCX
-- 
2.43.0


From caafc898c0dd86aeef3bc9a4cdb812e7bca0dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 107/161] fix: decode Softimage PIC channel packets of all
 kinds

---
 DevIL/src-IL/include/il_pic.h |  12 +-
 DevIL/src-IL/src/il_pic.cpp   | 243 ++++++++++------------------------
 2 files changed, 74 insertions(+), 181 deletions(-)

diff --git a/DevIL/src-IL/include/il_pic.h b/DevIL/src-IL/include/il_pic.h
index eccec72..b42ec88 100644
--- a/DevIL/src-IL/include/il_pic.h
+++ b/DevIL/src-IL/include/il_pic.h
@@ -25,8 +25,8 @@ typedef struct PIC_HEAD
    ILfloat	Version;		// Version of format
    ILbyte	Comment[80];	// Prototype description
    ILbyte	Id[4];			// 'PICT'
-   ILshort	Width;			// Image width, in pixels
-   ILshort	Height;			// Image height, in pixels
+   ILushort	Width;			// Image width, in pixels
+   ILushort	Height;			// Image height, in pixels
    ILfloat	Ratio;			// Pixel aspect ratio
    ILshort	Fields;			// Picture field type
    ILshort	Padding;		// Unused
@@ -68,12 +68,6 @@ typedef struct CHANNEL
 ILboolean iIsValidPic(void);
 ILboolean iCheckPic(PIC_HEAD *Header);
 ILboolean iLoadPicInternal(void);
-ILboolean readScanlines(ILuint *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha);
-ILuint    readScanline(ILubyte *scan, ILint width, CHANNEL *channel,  ILint bytes);
-ILboolean channelReadRaw(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes);
-ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes);
-ILboolean channelReadMixed(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes);
-
-
+ILboolean iReadPicChannel(ILubyte *Scan, ILuint Width, CHANNEL *Channel, ILuint Bytes);
 
 #endif//PIC_H
diff --git a/DevIL/src-IL/src/il_pic.cpp b/DevIL/src-IL/src/il_pic.cpp
index d4d459e..3fd5ecd 100644
--- a/DevIL/src-IL/src/il_pic.cpp
+++ b/DevIL/src-IL/src/il_pic.cpp
@@ -68,15 +68,16 @@ ILboolean ilIsValidPicL(const void *Lump, ILuint Size)
 // Internal function used to get the .pic header from the current file.
 ILboolean iGetPicHead(PIC_HEAD *Header)
 {
-	Header->Magic = GetBigInt();
-	Header->Version = GetBigFloat();
-	iread(Header->Comment, 1, 80);
-	iread(Header->Id, 1, 4);
-	Header->Width = GetBigShort();
-	Header->Height = GetBigShort();
-	Header->Ratio = GetBigFloat();
-	Header->Fields = GetBigShort();
-	Header->Padding = GetBigShort();
+	if (iread(Header, 1, sizeof(PIC_HEAD)) != sizeof(PIC_HEAD))
+		return IL_FALSE;
+
+	BigInt(&Header->Magic);
+	BigFloat(&Header->Version);
+	BigUShort(&Header->Width);
+	BigUShort(&Header->Height);
+	BigFloat(&Header->Ratio);
+	BigShort(&Header->Fields);
+	BigShort(&Header->Padding);
 
 	return IL_TRUE;
 }
@@ -161,6 +162,7 @@ ILboolean iLoadPicInternal()
 	CHANNEL		*Channel = NULL, *Channels = NULL, *Prev;
 	PIC_HEAD	Header;
 	ILboolean	Read;
+	ILuint		y;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -196,15 +198,17 @@ ILboolean iLoadPicInternal()
 		}
 		Channels->Next = NULL;
 
-		Chained = igetc();
-		Channels->Size = igetc();
-		Channels->Type = igetc();
-		Channels->Chan = igetc();
-		if (ieof()) {
+		if (iread(&Chained, 1, 1) != 1 || iread(&Channels->Size, 1, 1) != 1 || iread(&Channels->Type, 1, 1) != 1
+			|| iread(&Channels->Chan, 1, 1) != 1) {
 			Read = IL_FALSE;
 			goto finish;
 		}
-		
+		if (Channels->Size != 8 || (Channels->Type & 0x0F) > PIC_MIXED_RUN_LENGTH) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			Read = IL_FALSE;
+			goto finish;
+		}
+
 		// See if we have an alpha channel in there
 		if (Channels->Chan & PIC_ALPHA_CHANNEL)
 			Alpha = IL_TRUE;
@@ -225,7 +229,14 @@ ILboolean iLoadPicInternal()
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-	Read = readScanlines((ILuint*)iCurImage->Data, Header.Width, Header.Height, Channel, Alpha);
+	// The file starts with the top row.  Channels that are missing are 0.
+	imemclear(iCurImage->Data, iCurImage->SizeOfData);
+	Read = IL_TRUE;
+	for (y = iCurImage->Height; y > 0 && Read; y--) {
+		for (Channels = Channel; Channels != NULL && Read; Channels = (CHANNEL*)Channels->Next) {
+			Read = iReadPicChannel(iCurImage->Data + (y - 1) * iCurImage->Bps, iCurImage->Width, Channels, iCurImage->Bpp);
+		}
+	}
 
 finish:
 	// Destroy channels
@@ -242,177 +253,65 @@ finish:
 }
 
 
-ILboolean readScanlines(ILuint *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha)
+// Reads the pixels of one row for the colours that a channel packet has.
+ILboolean iReadPicChannel(ILubyte *Scan, ILuint Width, CHANNEL *Channel, ILuint Bytes)
 {
-	ILint	i;
-	ILuint	*scan;
-
-	(void)alpha;
-	
-	for (i = height - 1; i >= 0; i--) {
-		scan = image + i * width;
-
-		if (!readScanline((ILubyte *)scan, width, channel, alpha ? 4 : 3)) {
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-		}
+	ILuint	x, k, c, Count, Num = 0;
+	ILint	Head, Off[8];
+	ILubyte	Col[8];
+	ILboolean	Run;
+
+	// Where the values go: the last four kinds of channels are not colours.
+	for (c = 0; c < 8; c++) {
+		if (Channel->Chan & (0x80 >> c))
+			Off[Num++] = c < 4 ? (ILint)c : -1;
 	}
+	if (Num == 0)
+		return IL_TRUE;
 
-	return IL_TRUE;
-}
-
-
-ILuint readScanline(ILubyte *scan, ILint width, CHANNEL *channel, ILint bytes)
-{
-	ILint		noCol;
-	ILint		off[4];
-	ILuint		status=0;
-
-	while (channel) {
-		noCol = 0;
-		if(channel->Chan & PIC_RED_CHANNEL) {
-			off[noCol] = 0;
-			noCol++;
-		}
-		if(channel->Chan & PIC_GREEN_CHANNEL) {
-			off[noCol] = 1;
-			noCol++;
-		}
-		if(channel->Chan & PIC_BLUE_CHANNEL) {
-			off[noCol] = 2;
-			noCol++;
-		}
-		if(channel->Chan & PIC_ALPHA_CHANNEL) {
-			off[noCol] = 3;
-			noCol++;
-			//@TODO: Find out if this is possible.
-			if (bytes == 3)  // Alpha channel in a 24-bit image.  Do not know what to do with this.
-				return 0;
-		}
-
-		switch(channel->Type & 0x0F)
+	for (x = 0; x < Width; x += Count) {
+		Run = IL_FALSE;
+		switch (Channel->Type & 0x0F)
 		{
 			case PIC_UNCOMPRESSED:
-				status = channelReadRaw(scan, width, noCol, off, bytes);
+				Count = Width;
 				break;
 			case PIC_PURE_RUN_LENGTH:
-				status = channelReadPure(scan, width, noCol, off, bytes);
-				break;
-			case PIC_MIXED_RUN_LENGTH:
-				status = channelReadMixed(scan, width, noCol, off, bytes);
+				if ((Head = igetc()) == IL_EOF)
+					return IL_FALSE;
+				Count = Head;
+				Run = IL_TRUE;
 				break;
+			default:
+				if ((Head = igetc()) == IL_EOF)
+					return IL_FALSE;
+				Run = Head >= 128;
+				if (!Run)  // Raw sequence
+					Count = Head + 1;
+				else if (Head > 128)  // Repeated sequence
+					Count = Head - 127;
+				else {  // Long run
+					ILubyte Long[2];
+					if (iread(Long, 1, 2) != 2)
+						return IL_FALSE;
+					Count = Long[0] << 8 | Long[1];
+				}
 		}
-		if (!status)
-			break;
-
-		channel = (CHANNEL*)channel->Next;
-	}
-	return status;
-}
 
-
-ILboolean channelReadRaw(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes)
-{
-	ILint i, j;
-
-	for (i = 0; i < width; i++) {
-		if (ieof())
-			return IL_FALSE;
-		for (j = 0; j < noCol; j++)
-			if (iread(&scan[off[j]], 1, 1) != 1)
-				return IL_FALSE;
-		scan += bytes;
-	}
-	return IL_TRUE;
-}
-
-
-ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes)
-{
-	ILubyte		col[4];
-	ILint		count;
-	int			i, j, k;
-
-	for (i = width; i > 0; ) {
-		count = igetc();
-		if (count == IL_EOF)
-			return IL_FALSE;
-		if (count > width)
-			count = width;
-		i -= count;
-		
-		if (ieof())
+		// We've run past...
+		if (Count > Width - x) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
-		
-		for (j = 0; j < noCol; j++)
-			if (iread(&col[j], 1, 1) != 1)
-				return IL_FALSE;
-		
-		for (k = 0; k < count; k++, scan += bytes) {
-			for(j = 0; j < noCol; j++)
-				scan[off[j] + k] = col[j];
 		}
-	}
-	return IL_TRUE;
-}
-
 
-ILboolean channelReadMixed(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes)
-{
-	ILint	count;
-	int		i, j, k;
-	ILubyte	col[4];
-
-	for(i = 0; i < width; i += count) {
-		if (ieof())
+		if (Run && iread(Col, 1, Num) != Num)
 			return IL_FALSE;
-
-		count = igetc();
-		if (count == IL_EOF)
-			return IL_FALSE;
-
-		if (count >= 128) {  // Repeated sequence
-			if (count == 128) {  // Long run
-				count = GetBigUShort();
-				if (ieof()) {
-					ilSetError(IL_FILE_READ_ERROR);
-					return IL_FALSE;
-				}
-			}
-			else
-				count -= 127;
-			
-			// We've run past...
-			if ((i + count) > width) {
-				//fprintf(stderr, "ERROR: FF_PIC_load(): Overrun scanline (Repeat) [%d + %d > %d] (NC=%d)\n", i, count, width, noCol);
-				ilSetError(IL_ILLEGAL_FILE_VALUE);
+		for (k = 0; k < Count; k++, Scan += Bytes) {
+			if (!Run && iread(Col, 1, Num) != Num)
 				return IL_FALSE;
-			}
-
-			for (j = 0; j < noCol; j++)
-				if (iread(&col[j], 1, 1) != 1) {
-					ilSetError(IL_FILE_READ_ERROR);
-					return IL_FALSE;
-				}
-
-			for (k = 0; k < count; k++, scan += bytes) {
-				for (j = 0; j < noCol; j++)
-					scan[off[j]] = col[j];
-			}
-		} else {				// Raw sequence
-			count++;
-			if ((i + count) > width) {
-				//fprintf(stderr, "ERROR: FF_PIC_load(): Overrun scanline (Raw) [%d + %d > %d] (NC=%d)\n", i, count, width, noCol);
-				ilSetError(IL_ILLEGAL_FILE_VALUE);
-				return IL_FALSE;
-			}
-			
-			for (k = count; k > 0; k--, scan += bytes) {
-				for (j = 0; j < noCol; j++)
-					if (iread(&scan[off[j]], 1, 1) != 1) {
-						ilSetError(IL_FILE_READ_ERROR);
-						return IL_FALSE;
-					}
+			for (c = 0; c < Num; c++) {
+				if (Off[c] >= 0)
+					Scan[Off[c]] = Col[c];
 			}
 		}
 	}
-- 
2.43.0


From 3b797d3b874612d93758dbaedd6ee939c50f4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 108/161] fix: read XPM pictures with any number of characters
 per pixel, comments and named colours

---
 DevIL/src-IL/src/il_xpm.cpp | 576 +++++++++++++-----------------------
 1 file changed, 202 insertions(+), 374 deletions(-)

diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 4b4a3e8..b111bc3 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -75,15 +75,13 @@ ILboolean ilIsValidXpmL(const void *Lump, ILuint Size)
 // Internal function to get the header and check it.
 ILboolean iIsValidXpm(void)
 {
-	ILubyte	Buffer[10];
-	ILuint	Pos = itell();
+	ILubyte	Buffer[9];
+	ILuint	Pos = itell(), Read;
 
-	XpmGetsInternal(Buffer, 10);
+	Read = iread(Buffer, 1, 9);
 	iseek(Pos, IL_SEEK_SET);  // Restore position
 
-	if (strncmp("/* XPM */", (char*)Buffer, strlen("/* XPM */")))
-		return IL_FALSE;
-	return IL_TRUE;
+	return Read == 9 && !memcmp("/* XPM */", Buffer, 9);
 }
 
 
@@ -132,10 +130,7 @@ ILboolean ilLoadXpmL(const void *Lump, ILuint Size)
 
 typedef ILubyte XpmPixel[4];
 
-#define XPM_MAX_CHAR_PER_PIXEL 2
-
-
-#ifndef XPM_DONT_USE_HASHTABLE
+#define XPM_MAX_CHAR_PER_PIXEL 8
 
 //The following hash table code was inspired by the xpm
 //loading code of xv, one of the best image viewers of X11
@@ -163,7 +158,7 @@ static ILuint XpmHash(const ILubyte* name, int len)
 {
 	ILint i, sum;
 	for (sum = i = 0; i < len; ++i)
-		sum += name[i];
+		sum = sum * 31 % XPM_HASH_LEN + name[i];
 	return sum % XPM_HASH_LEN;
 }
 
@@ -195,460 +190,293 @@ void XpmDestroyHashTable(XPMHASHENTRY **Table)
 }
 
 
-void XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
+ILboolean XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
 {
 	XPMHASHENTRY* NewEntry;
 	ILuint Index;
 	Index = XpmHash(Name, Len);
 
 	NewEntry = (XPMHASHENTRY*)ialloc(sizeof(XPMHASHENTRY));
-	if (NewEntry != NULL) {
-		NewEntry->Next = Table[Index];
-		memcpy(NewEntry->ColourName, Name, Len);
-		memcpy(NewEntry->ColourValue, Colour, sizeof(XpmPixel));
-		Table[Index] = NewEntry;
-	}
+	if (NewEntry == NULL)
+		return IL_FALSE;
+	NewEntry->Next = Table[Index];
+	memcpy(NewEntry->ColourName, Name, Len);
+	memcpy(NewEntry->ColourValue, Colour, sizeof(XpmPixel));
+	Table[Index] = NewEntry;
+	return IL_TRUE;
 }
 
 
-void XpmGetEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
+ILboolean XpmGetEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, ILubyte *Colour)
 {
 	XPMHASHENTRY* Entry;
-	ILuint Index;
 
-	Index = XpmHash(Name, Len);
-	Entry = Table[Index];
-	while (Entry != NULL && strncmp((char*)(Entry->ColourName), (char*)Name, Len) != 0)
-		Entry = Entry->Next;
+	for (Entry = Table[XpmHash(Name, Len)]; Entry != NULL; Entry = Entry->Next) {
+		if (!memcmp(Entry->ColourName, Name, Len)) {
+			memcpy(Colour, Entry->ColourValue, sizeof(XpmPixel));
+			return IL_TRUE;
+		}
+	}
 
-	if (Entry != NULL)
-		memcpy(Colour, Entry->ColourValue, sizeof(XpmPixel));
+	return IL_FALSE;
 }
 
-#endif //XPM_DONT_USE_HASHTABLE
-
 
-ILint XpmGetsInternal(ILubyte *Buffer, ILint MaxLen)
+// Reads the next string constant, skipping everything else (comments, declarations).
+//	Characters that do not fit are dropped.  Returns the length or -1 at the end of the file.
+ILint XpmGetString(ILubyte *Buffer, ILint MaxLen)
 {
-	ILint	i = 0, Current;
+	ILint Current, Last = 0, Len = 0;
 
-	if (ieof())
-		return IL_EOF;
-
-	while ((Current = igetc()) != IL_EOF && i < MaxLen - 1) {
+	while ((Current = igetc()) != '\"') {
 		if (Current == IL_EOF)
-			return 0;
-		if (Current == '\n') //unix line ending
-			break;
-
-		if (Current == '\r') { //dos/mac line ending
-			Current = igetc();
-			if (Current == '\n') //dos line ending
-				break;
-
-			if (Current == IL_EOF)
-				break;
-
-			Buffer[i++] = (ILubyte)Current;
-			continue;
+			return -1;
+		if (Last == '/' && Current == '*') {
+			Last = 0;
+			while ((Current = igetc()) != '/' || Last != '*') {
+				if (Current == IL_EOF)
+					return -1;
+				Last = Current;
+			}
+			Current = 0;
 		}
-		Buffer[i++] = (ILubyte)Current;
+		Last = Current;
 	}
 
-	Buffer[i++] = 0;
+	while ((Current = igetc()) != '\"') {
+		if (Current == IL_EOF)
+			return -1;
+		if (Len < MaxLen - 1)
+			Buffer[Len++] = (ILubyte)Current;
+	}
+	Buffer[Len] = 0;
 
-	return i;
+	return Len;
 }
 
 
-ILint XpmGets(ILubyte *Buffer, ILint MaxLen)
+// Reads a number that is not negative.
+ILint XpmGetInt(ILubyte *Buffer, ILint *Position)
 {
-	ILint		Size, i, j;
-	ILboolean	NotComment = IL_FALSE, InsideComment = IL_FALSE;
-
-	do {
-		Size = XpmGetsInternal(Buffer, MaxLen);
-		if (Size == IL_EOF)
-			return IL_EOF;
-
-		//skip leading whitespace (sometimes there's whitespace
-		//before a comment or before the pixel data)
-
-		for(i = 0; i < Size && isspace(Buffer[i]); ++i) ;
-		Size = Size - i;
-		for(j = 0; j < Size; ++j)
-			Buffer[j] = Buffer[j + i];
-
-		if (Size == 0)
-			continue;
-
-		if (Buffer[0] == '/' && Buffer[1] == '*') {
-			for (i = 2; i < Size; i++) {
-				if (Buffer[i] == '*' && Buffer[i+1] == '/') {
-					break;
-				}
-			}
-			if (i >= Size)
-				InsideComment = IL_TRUE;
-		}
-		else if (InsideComment) {
-			for (i = 0; i < Size; i++) {
-				if (Buffer[i] == '*' && Buffer[i+1] == '/') {
-					break;
-				}
-			}
-			if (i < Size)
-				InsideComment = IL_FALSE;
-		}
-		else {
-			NotComment = IL_TRUE;
-		}
-	} while (!NotComment);
+	ILint i = *Position, Value = 0;
+
+	while (Buffer[i] == ' ' || Buffer[i] == '\t')
+		i++;
+	if (!isdigit(Buffer[i]))
+		return -1;
+	for (; isdigit(Buffer[i]); i++) {
+		Value = Value * 10 + Buffer[i] - '0';
+		if (Value > 0xFFFFFF)
+			return -1;
+	}
+	*Position = i;
 
-	return Size;
+	return Value;
 }
 
 
-ILint XpmGetInt(ILubyte *Buffer, ILint Size, ILint *Position)
+typedef struct XPMNAME
 {
-	char		Buff[1024];
-	ILint		i, j;
-	ILboolean	IsInNum = IL_FALSE;
-
-	for (i = *Position, j = 0; i < Size; i++) {
-		if (isdigit(Buffer[i])) {
-			IsInNum = IL_TRUE;
-			Buff[j++] = Buffer[i];
-		}
-		else {
-			if (IsInNum) {
-				Buff[j] = 0;
-				*Position = i;
-				return atoi(Buff);
-			}
-		}
-	}
-
-	return -1;
-}
-
+	const char	*Name;
+	ILubyte		Red, Green, Blue, Alpha;
+} XPMNAME;
 
-ILboolean XpmPredefCol(char *Buff, XpmPixel *Colour)
+static const XPMNAME XpmNames[] =
 {
-	ILint len;
-	ILint val = 128;
-
-	if (!stricmp(Buff, "none")) {
-		(*Colour)[0] = 0;
-		(*Colour)[1] = 0;
-		(*Colour)[2] = 0;
-		(*Colour)[3] = 0;
+	{ "none", 0, 0, 0, 0 },
+	{ "black", 0, 0, 0, 255 },
+	{ "white", 255, 255, 255, 255 },
+	{ "red", 255, 0, 0, 255 },
+	{ "green", 0, 255, 0, 255 },
+	{ "blue", 0, 0, 255, 255 },
+	{ "yellow", 255, 255, 0, 255 },
+	{ "cyan", 0, 255, 255, 255 },
+	{ "magenta", 255, 0, 255, 255 },
+	{ "gray", 128, 128, 128, 255 },
+	{ "grey", 128, 128, 128, 255 }
+};
+
+
+// Reads the colour that a word stands for.
+ILboolean XpmParseColour(const char *Word, XpmPixel Colour)
+{
+	ILuint	i, j, Digits, Value;
+	char	Part[3];
+
+	Colour[3] = 255;
+	if (Word[0] == '#') {
+		// There may be one to four digits per colour, the first ones count.
+		for (i = 1; isxdigit((ILubyte)Word[i]); i++) ;
+		Digits = (i - 1) / 3;
+		if (Word[i] != 0 || Digits * 3 != i - 1 || Digits < 1 || Digits > 4)
+			return IL_FALSE;
+		for (j = 0; j < 3; j++) {
+			Part[0] = Word[1 + j * Digits];
+			Part[1] = Digits == 1 ? Part[0] : Word[2 + j * Digits];
+			Part[2] = 0;
+			Colour[j] = (ILubyte)strtol(Part, NULL, 16);
+		}
 		return IL_TRUE;
 	}
 
-	(*Colour)[3] = 255;
-
-	if (!stricmp(Buff, "black")) {
-		(*Colour)[0] = 0;
-		(*Colour)[1] = 0;
-		(*Colour)[2] = 0;
-		return IL_TRUE;
-	}
-	if (!stricmp(Buff, "white")) {
-		(*Colour)[0] = 255;
-		(*Colour)[1] = 255;
-		(*Colour)[2] = 255;
-		return IL_TRUE;
-	}
-	if (!stricmp(Buff, "red")) {
-		(*Colour)[0] = 255;
-		(*Colour)[1] = 0;
-		(*Colour)[2] = 0;
-		return IL_TRUE;
-	}
-	if (!stricmp(Buff, "green")) {
-		(*Colour)[0] = 0;
-		(*Colour)[1] = 255;
-		(*Colour)[2] = 0;
-		return IL_TRUE;
-	}
-	if (!stricmp(Buff, "blue")) {
-		(*Colour)[0] = 0;
-		(*Colour)[1] = 0;
-		(*Colour)[2] = 255;
-		return IL_TRUE;
-	}
-	if (!stricmp(Buff, "yellow")) {
-		(*Colour)[0] = 255;
-		(*Colour)[1] = 255;
-		(*Colour)[2] = 0;
-		return IL_TRUE;
-	}
-	if (!stricmp(Buff, "cyan")) {
-		(*Colour)[0] = 0;
-		(*Colour)[1] = 255;
-		(*Colour)[2] = 255;
-		return IL_TRUE;
-	}
-	if (!stricmp(Buff, "gray")) {
-		(*Colour)[0] = 128;
-		(*Colour)[1] = 128;
-		(*Colour)[2] = 128;
-		return IL_TRUE;
+	for (i = 0; i < sizeof(XpmNames) / sizeof(XpmNames[0]); i++) {
+		if (!stricmp(Word, XpmNames[i].Name)) {
+			Colour[0] = XpmNames[i].Red;
+			Colour[1] = XpmNames[i].Green;
+			Colour[2] = XpmNames[i].Blue;
+			Colour[3] = XpmNames[i].Alpha;
+			return IL_TRUE;
+		}
 	}
 
 	//check for grayXXX codes (added 20040218)
-	len = ilCharStrLen(Buff);
-	if (len >= 4) {
-		if (Buff[0] == 'g' || Buff[0] == 'G'
-			|| Buff[1] == 'r' || Buff[1] == 'R'
-			|| Buff[2] == 'a' || Buff[2] == 'A'
-			|| Buff[3] == 'y' || Buff[3] == 'Y') {
-			if (isdigit(Buff[4])) { // isdigit returns false on '\0'
-				val = Buff[4] - '0';
-				if (isdigit(Buff[5])) {
-					val = val*10 + Buff[5] - '0';
-					if (isdigit(Buff[6]))
-						val = val*10 + Buff[6] - '0';
-				}
-				val = (255*val)/100;
-			}
-			(*Colour)[0] = (ILubyte)val;
-			(*Colour)[1] = (ILubyte)val;
-			(*Colour)[2] = (ILubyte)val;
+	if (!strnicmp(Word, "gray", 4) || !strnicmp(Word, "grey", 4)) {
+		for (i = 4, Value = 0; isdigit((ILubyte)Word[i]) && i < 7; i++)
+			Value = Value * 10 + Word[i] - '0';
+		if (Word[i] == 0 && Value <= 100) {
+			Colour[0] = Colour[1] = Colour[2] = (ILubyte)((Value * 255 + 50) / 100);
 			return IL_TRUE;
 		}
 	}
 
-
-	// Unknown colour string, so use black
-	// (changed 20040218)
-	(*Colour)[0] = 0;
-	(*Colour)[1] = 0;
-	(*Colour)[2] = 0;
-
 	return IL_FALSE;
 }
 
 
-#ifndef XPM_DONT_USE_HASHTABLE
-ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XPMHASHENTRY **Table)
-#else
-ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
-#endif
+// Reads the definition of a colour (what follows its characters).
+ILboolean XpmGetColour(const ILubyte *Buffer, XpmPixel Colour)
 {
-	ILint		i = 0, j, strLen = 0;
-	ILubyte		ColBuff[3];
-	char		Buff[1024];
-
-	XpmPixel	Colour;
-	ILubyte		Name[XPM_MAX_CHAR_PER_PIXEL];
-
-	for ( ; i < Size; i++) {
-		if (Buffer[i] == '\"')
-			break;
-	}
-	i++;  // Skip the quotes.
-
-	if (i >= Size)
-		return IL_FALSE;
-
-	// Get the characters.
-	for (j = 0; j < Len; ++j) {
-		Name[j] = Buffer[i++];
-	}
-
-	// Skip to the colour definition.
-	for ( ; i < Size; i++) {
-		if (Buffer[i] == 'c')
+	// What the colour is on each kind of screen: the best comes first.
+	static const char *Keys[] = { "c", "g", "g4", "m" };
+	char	Word[64];
+	ILint	i = 0, j, Key = -1, Best = 4;
+	XpmPixel Found;
+
+	while (1) {
+		while (Buffer[i] == ' ' || Buffer[i] == '\t')
+			i++;
+		if (Buffer[i] == 0)
 			break;
-	}
-	i++;  // Skip the 'c'.
-
-	if (i >= Size || Buffer[i] != ' ') { // no 'c' found...assume black
-#ifndef XPM_DONT_USE_HASHTABLE
-		memset(Colour, 0, sizeof(Colour));
-		Colour[3] = 255;
-		XpmInsertEntry(Table, Name, Len, Colour);
-#else
-		memset(Colours[Name[0]], 0, sizeof(Colour));
-		Colours[Name[0]][3] = 255;
-#endif
-		return IL_TRUE;
-	}
-
-	for ( ; i < Size; i++) {
-		if (Buffer[i] != ' ')
-			break;
-	}
-
-	if (i >= Size)
-		return IL_FALSE;
-
-	if (Buffer[i] == '#') {
-		// colour string may 4 digits/color or 1 digit/color
-		// (added 20040218) TODO: is isxdigit() ANSI???
-		++i;
-		while (i + strLen < Size && isxdigit(Buffer[i + strLen]))
-			++strLen;
+		for (j = 0; Buffer[i] != 0 && Buffer[i] != ' ' && Buffer[i] != '\t'; i++) {
+			if (j < (ILint)sizeof(Word) - 1)
+				Word[j++] = Buffer[i];
+		}
+		Word[j] = 0;
 
-		for (j = 0; j < 3; j++) {
-			if (strLen >= 10) { // 4 digits
-				ColBuff[0] = Buffer[i + j*4];
-				ColBuff[1] = Buffer[i + j*4 + 1];
-			}
-			else if (strLen >= 8) { // 3 digits
-				ColBuff[0] = Buffer[i + j*3];
-				ColBuff[1] = Buffer[i + j*3 + 1];
-			}
-			else if (strLen >= 6) { // 2 digits
-				ColBuff[0] = Buffer[i + j*2];
-				ColBuff[1] = Buffer[i + j*2 + 1];
-			}
-			else if(j < strLen) { // 1 digit, strLen >= 1
-				ColBuff[0] = Buffer[i + j];
-				ColBuff[1] = 0;
+		if (Key >= 0) {  // This is a value.
+			if (Key < Best) {
+				if (!XpmParseColour(Word, Found)) {
+					if (Key == 0)
+						return IL_FALSE;
+				}
+				else {
+					memcpy(Colour, Found, sizeof(XpmPixel));
+					Best = Key;
+				}
 			}
-
-			ColBuff[2] = 0; // add terminating '\0' char
-			Colour[j] = (ILubyte)strtol((char*)ColBuff, NULL, 16);
+			Key = -1;
+			continue;
 		}
-		Colour[3] = 255;  // Full alpha.
-	}
-	else {
-		for (j = 0; i < Size; i++) {
-			if (!isalnum(Buffer[i]))
-				break;
-			Buff[j++] = Buffer[i];
+		for (j = 0; j < 4 && Key < 0; j++) {
+			if (!strcmp(Word, Keys[j]))
+				Key = j;
 		}
-		Buff[j] = 0;
-
-		if (i >= Size)
-			return IL_FALSE;
-
-		if (!XpmPredefCol(Buff, &Colour))
-
-			return IL_FALSE;
+		if (!strcmp(Word, "s"))
+			Key = 4;  // Just the name of the colour
 	}
 
-
-#ifndef XPM_DONT_USE_HASHTABLE
-	XpmInsertEntry(Table, Name, Len, Colour);
-#else
-	memcpy(Colours[Name[0]], Colour, sizeof(Colour));
-#endif
+	if (Best == 4) {  // no colour found...assume black
+		memset(Colour, 0, 3);
+		Colour[3] = 255;
+	}
 	return IL_TRUE;
 }
 
 
 ILboolean iLoadXpmInternal()
 {
-#define BUFFER_SIZE 2000
-	ILubyte			Buffer[BUFFER_SIZE], *Data;
-	ILint			Size, Pos, Width, Height, NumColours, i, x, y;
-
-	ILint			CharsPerPixel;
+	ILubyte			*Buffer = NULL, *Data, Header[256];
+	ILint			Size, Pos, Width, Height, NumColours, i, x, y, CharsPerPixel;
+	XPMHASHENTRY	**HashTable = NULL;
+	XpmPixel		Colour;
 
-#ifndef XPM_DONT_USE_HASHTABLE
-	XPMHASHENTRY	**HashTable;
-#else
-	XpmPixel	*Colours;
-	ILint		Offset;
-#endif
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
-	Size = XpmGetsInternal(Buffer, BUFFER_SIZE);
-	if (strncmp("/* XPM */", (char*)Buffer, strlen("/* XPM */"))) {
+	if (!iIsValidXpm()) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
-	Size = XpmGets(Buffer, BUFFER_SIZE);
-	// @TODO:  Actually check the variable name here.
-
-	Size = XpmGets(Buffer, BUFFER_SIZE);
+	if (XpmGetString(Header, sizeof(Header)) < 0)
+		return IL_FALSE;
 	Pos = 0;
-	Width = XpmGetInt(Buffer, Size, &Pos);
-	Height = XpmGetInt(Buffer, Size, &Pos);
-	NumColours = XpmGetInt(Buffer, Size, &Pos);
+	Width = XpmGetInt(Header, &Pos);
+	Height = XpmGetInt(Header, &Pos);
+	NumColours = XpmGetInt(Header, &Pos);
+	CharsPerPixel = XpmGetInt(Header, &Pos);
 
-	CharsPerPixel = XpmGetInt(Buffer, Size, &Pos);
-
-#ifdef XPM_DONT_USE_HASHTABLE
-	if (CharsPerPixel != 1) {
-		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+	if (Width <= 0 || Height <= 0 || NumColours <= 0 || CharsPerPixel <= 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-#endif
-
-	if (CharsPerPixel > XPM_MAX_CHAR_PER_PIXEL
-		|| Width*CharsPerPixel > BUFFER_SIZE) {
+	if (CharsPerPixel > XPM_MAX_CHAR_PER_PIXEL) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
 
-#ifndef XPM_DONT_USE_HASHTABLE
+	Size = IL_MAX(Width * CharsPerPixel, 1024) + 1;
+	Buffer = (ILubyte*)ialloc(Size);
 	HashTable = XpmCreateHashTable();
-	if (HashTable == NULL)
-		return IL_FALSE;
-#else
-	Colours = ialloc(256 * sizeof(XpmPixel));
-	if (Colours == NULL)
-		return IL_FALSE;
-#endif
+	if (Buffer == NULL || HashTable == NULL)
+		goto error_clean;
 
 	for (i = 0; i < NumColours; i++) {
-		Size = XpmGets(Buffer, BUFFER_SIZE);
-#ifndef XPM_DONT_USE_HASHTABLE
-		if (!XpmGetColour(Buffer, Size, CharsPerPixel, HashTable)) {
-			XpmDestroyHashTable(HashTable);
-#else
-		if (!XpmGetColour(Buffer, Size, CharsPerPixel, Colours)) {
-			ifree(Colours);
-#endif
-			return IL_FALSE;
+		Pos = XpmGetString(Buffer, Size);
+		if (Pos < 0)
+			goto error_clean;
+		if (Pos < CharsPerPixel || !XpmGetColour(Buffer + CharsPerPixel, Colour)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			goto error_clean;
 		}
-	}
-	
-	if (!ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
-#ifndef XPM_DONT_USE_HASHTABLE
-		XpmDestroyHashTable(HashTable);
-#else
-		ifree(Colours);
-#endif
-		return IL_FALSE;
+		if (!XpmInsertEntry(HashTable, Buffer, CharsPerPixel, Colour))
+			goto error_clean;
 	}
 
-	Data = iCurImage->Data;
+	if (!ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+		goto error_clean;
+	//added 20040218
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
+	Data = iCurImage->Data;
 	for (y = 0; y < Height; y++) {
-		Size = XpmGets(Buffer, BUFFER_SIZE);
+		Pos = XpmGetString(Buffer, Size);
+		if (Pos < 0)
+			goto error_clean;
+		if (Pos < Width * CharsPerPixel) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			goto error_clean;
+		}
 		for (x = 0; x < Width; x++) {
-#ifndef XPM_DONT_USE_HASHTABLE
-			XpmGetEntry(HashTable, &Buffer[1 + x*CharsPerPixel], CharsPerPixel, &Data[(x << 2)]);
-#else
-			Offset = (x << 2);
-			Data[Offset + 0] = Colours[Buffer[x + 1]][0];
-			Data[Offset + 1] = Colours[Buffer[x + 1]][1];
-			Data[Offset + 2] = Colours[Buffer[x + 1]][2];
-			Data[Offset + 3] = Colours[Buffer[x + 1]][3];
-#endif
+			if (!XpmGetEntry(HashTable, Buffer + x * CharsPerPixel, CharsPerPixel, Data + x * 4)) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto error_clean;
+			}
 		}
-
 		Data += iCurImage->Bps;
 	}
 
-	//added 20040218
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-
-#ifndef XPM_DONT_USE_HASHTABLE
+	ifree(Buffer);
 	XpmDestroyHashTable(HashTable);
-#else
-	ifree(Colours);
-#endif
-	return IL_TRUE;
+	return ilFixImage();
 
-#undef BUFFER_SIZE
+error_clean:
+	ifree(Buffer);
+	if (HashTable != NULL)
+		XpmDestroyHashTable(HashTable);
+	return IL_FALSE;
 }
 
 #endif//IL_NO_XPM
-- 
2.43.0


From d1e9a7bd040c604013430d0fe11514fbb58c2737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 109/161] fix: read DPX pictures of both byte orders at all bit
 depths

---
 DevIL/src-IL/include/il_dpx.h | 122 --------------
 DevIL/src-IL/src/il_dpx.cpp   | 307 +++++++++++-----------------------
 2 files changed, 101 insertions(+), 328 deletions(-)

diff --git a/DevIL/src-IL/include/il_dpx.h b/DevIL/src-IL/include/il_dpx.h
index aee90f5..842f421 100644
--- a/DevIL/src-IL/include/il_dpx.h
+++ b/DevIL/src-IL/include/il_dpx.h
@@ -20,128 +20,6 @@
 #include "il_internal.h"
 
 
-#ifdef _WIN32
-#pragma pack(push, packed_struct, 1)
-#endif
-typedef struct R32
-{
-	ILubyte	r, g, b, a;
-} IL_PACKSTRUCT R32;
-#ifdef _WIN32
-#pragma pack(pop, packed_struct)
-#endif
-
-
-typedef struct DPX_FILE_INFO
-{
-    ILuint	MagicNum;        /* magic number 0x53445058 (SDPX) or 0x58504453 (XPDS) */
-    ILuint	Offset;           /* offset to image data in bytes */
-    ILbyte	Vers[8];          /* which header format version is being used (v1.0)*/
-    ILuint	FileSize;        /* file size in bytes */
-    ILuint	DittoKey;        /* read time short cut - 0 = same, 1 = new */
-    ILuint	GenHdrSize;     /* generic header length in bytes */
-    ILuint	IndHdrSize;     /* industry header length in bytes */
-    ILuint	UserDataSize;   /* user-defined data length in bytes */
-    ILbyte	FileName[100];   /* image file name */
-    ILbyte	CreateTime[24];  /* file creation date "yyyy:mm:dd:hh:mm:ss:LTZ" */
-    ILbyte	Creator[100];     /* file creator's name */
-    ILbyte	Project[200];     /* project name */
-    ILbyte	Copyright[200];   /* right to use or copyright info */
-    ILuint	Key;              /* encryption ( FFFFFFFF = unencrypted ) */
-    ILbyte	Reserved[104];    /* reserved field TBD (need to pad) */
-} DPX_FILE_INFO;
-
-typedef struct DPX_IMAGE_ELEMENT
-{
-    ILuint    DataSign;			/* data sign (0 = unsigned, 1 = signed ) */
-								/* "Core set images are unsigned" */
-    ILuint		RefLowData;		/* reference low data code value */
-    R32			RefLowQuantity;	/* reference low quantity represented */
-    ILuint		RefHighData;	/* reference high data code value */
-    R32			RefHighQuantity;/* reference high quantity represented */
-    ILubyte		Descriptor;		/* descriptor for image element */
-    ILubyte		Transfer;		/* transfer characteristics for element */
-    ILubyte		Colorimetric;	/* colormetric specification for element */
-    ILubyte		BitSize;		/* bit size for element */
-	ILushort	Packing;		/* packing for element */
-    ILushort	Encoding;		/* encoding for element */
-    ILuint		DataOffset;		/* offset to data of element */
-    ILuint		EolPadding;		/* end of line padding used in element */
-    ILuint		EoImagePadding;	/* end of image padding used in element */
-    ILbyte		Description[32];/* description of element */
-} DPX_IMAGE_ELEMENT;  /* NOTE THERE ARE EIGHT OF THESE */
-
-
-typedef struct DPX_IMAGE_INFO
-{
-    ILushort	Orientation;          /* image orientation */
-    ILushort	NumElements;       /* number of image elements */
-    ILuint		Width;      /* or x value */
-    ILuint		Height;  /* or y value, per element */
-	DPX_IMAGE_ELEMENT	ImageElement[8];
-    ILubyte		reserved[52];             /* reserved for future use (padding) */
-} DPX_IMAGE_INFO;
-
-
-typedef struct DPX_IMAGE_ORIENT
-{
-    ILuint		XOffset;               /* X offset */
-    ILuint		YOffset;               /* Y offset */
-    R32			XCenter;               /* X center */
-    R32			YCenter;               /* Y center */
-    ILuint		XOrigSize;            /* X original size */
-    ILuint		YOrigSize;            /* Y original size */
-    ILbyte		FileName[100];         /* source image file name */
-    ILbyte		CreationTime[24];      /* source image creation date and time */
-    ILbyte		InputDev[32];          /* input device name */
-    ILbyte		InputSerial[32];       /* input device serial number */
-    ILushort	Border[4];              /* border validity (XL, XR, YT, YB) */
-    ILuint		PixelAspect[2];        /* pixel aspect ratio (H:V) */
-    ILubyte		Reserved[28];           /* reserved for future use (padding) */
-} DPX_IMAGE_ORIENT;
-
-
-typedef struct DPX_MOTION_PICTURE_HEAD
-{
-    ILbyte film_mfg_id[2];    /* film manufacturer ID code (2 digits from film edge code) */
-    ILbyte film_type[2];      /* file type (2 digits from film edge code) */
-    ILbyte offset[2];         /* offset in perfs (2 digits from film edge code)*/
-    ILbyte prefix[6];         /* prefix (6 digits from film edge code) */
-    ILbyte count[4];          /* count (4 digits from film edge code)*/
-    ILbyte format[32];        /* format (i.e. academy) */
-    ILuint   frame_position;    /* frame position in sequence */
-    ILuint   sequence_len;      /* sequence length in frames */
-    ILuint   held_count;        /* held count (1 = default) */
-    R32   frame_rate;        /* frame rate of original in frames/sec */
-    R32   shutter_angle;     /* shutter angle of camera in degrees */
-    ILbyte frame_id[32];      /* frame identification (i.e. keyframe) */
-    ILbyte slate_info[100];   /* slate information */
-    ILubyte    reserved[56];      /* reserved for future use (padding) */
-} DPX_MOTION_PICTURE_HEAD;
-
-
-typedef struct DPX_TELEVISION_HEAD
-{
-    ILuint tim_code;            /* SMPTE time code */
-    ILuint userBits;            /* SMPTE user bits */
-    ILubyte  interlace;           /* interlace ( 0 = noninterlaced, 1 = 2:1 interlace*/
-    ILubyte  field_num;           /* field number */
-    ILubyte  video_signal;        /* video signal standard (table 4)*/
-    ILubyte  unused;              /* used for byte alignment only */
-    R32 hor_sample_rate;     /* horizontal sampling rate in Hz */
-    R32 ver_sample_rate;     /* vertical sampling rate in Hz */
-    R32 frame_rate;          /* temporal sampling rate or frame rate in Hz */
-    R32 time_offset;         /* time offset from sync to first pixel */
-    R32 gamma;               /* gamma value */
-    R32 black_level;         /* black level code value */
-    R32 black_gain;          /* black gain */
-    R32 break_point;         /* breakpoint */
-    R32 white_level;         /* reference white level code value */
-    R32 integration_times;   /* integration time(s) */
-    ILubyte  reserved[76];        /* reserved for future use (padding) */
-} DPX_TELEVISION_HEAD;
-
-
 // For checking and reading
 ILboolean iIsValidDpx(void);
 //ILboolean iCheckDpx(DPXHEAD *Header);
diff --git a/DevIL/src-IL/src/il_dpx.cpp b/DevIL/src-IL/src/il_dpx.cpp
index 2baf904..2777582 100644
--- a/DevIL/src-IL/src/il_dpx.cpp
+++ b/DevIL/src-IL/src/il_dpx.cpp
@@ -63,132 +63,63 @@ ILboolean ilLoadDpxL(const void *Lump, ILuint Size)
 }
 
 
-ILboolean DpxGetFileInfo(DPX_FILE_INFO *FileInfo)
+// The values of the header may be stored in both byte orders.
+static ILuint DpxGetUInt(const ILubyte *Data, ILboolean Big)
 {
-	//if (iread(FileInfo, 768, 1) != 1)
-	//	return IL_FALSE;
-
-	FileInfo->MagicNum = GetBigUInt();
-	FileInfo->Offset = GetBigUInt();
-	iread(FileInfo->Vers, 8, 1);
-	FileInfo->FileSize = GetBigUInt();
-	FileInfo->DittoKey = GetBigUInt();
-	FileInfo->GenHdrSize = GetBigUInt();
-	FileInfo->IndHdrSize = GetBigUInt();
-	FileInfo->UserDataSize = GetBigUInt();
-	iread(FileInfo->FileName, 100, 1);
-	iread(FileInfo->CreateTime, 24, 1);
-	iread(FileInfo->Creator, 100, 1);
-	iread(FileInfo->Project, 200, 1);
-	if (iread(FileInfo->Copyright, 200, 1) != 1)
-		return IL_FALSE;
-	FileInfo->Key = GetBigUInt();
-	iseek(104, IL_SEEK_CUR);  // Skip reserved section.
-
-	return IL_TRUE;
+	if (Big)
+		return (ILuint)Data[0] << 24 | Data[1] << 16 | Data[2] << 8 | Data[3];
+	return (ILuint)Data[3] << 24 | Data[2] << 16 | Data[1] << 8 | Data[0];
 }
 
 
-ILboolean GetImageElement(DPX_IMAGE_ELEMENT *ImageElement)
+static ILushort DpxGetUShort(const ILubyte *Data, ILboolean Big)
 {
-	ImageElement->DataSign = GetBigUInt();
-	ImageElement->RefLowData = GetBigUInt();
-	iread(&ImageElement->RefLowQuantity, 1, 4);
-	ImageElement->RefHighData = GetBigUInt();
-	iread(&ImageElement->RefHighQuantity, 1, 4);
-	ImageElement->Descriptor = igetc();
-	ImageElement->Transfer = igetc();
-	ImageElement->Colorimetric = igetc();
-	ImageElement->BitSize = igetc();
-	ImageElement->Packing = GetBigUShort();
-	ImageElement->Encoding = GetBigUShort();
-	ImageElement->DataOffset = GetBigUInt();
-	ImageElement->EolPadding = GetBigUInt();
-	ImageElement->EoImagePadding = GetBigUInt();
-	if (iread(ImageElement->Description, 32, 1) != 1)
-		return IL_FALSE;
-
-	return IL_TRUE;
-}
-
-
-ILboolean DpxGetImageInfo(DPX_IMAGE_INFO *ImageInfo)
-{
-	ILuint i;
-
-	//if (iread(ImageInfo, sizeof(DPX_IMAGE_INFO), 1) != 1)
-	//	return IL_FALSE;
-	ImageInfo->Orientation = GetBigUShort();
-	ImageInfo->NumElements = GetBigUShort();
-	ImageInfo->Width = GetBigUInt();
-	ImageInfo->Height = GetBigUInt();
-
-	for (i = 0; i < 8; i++) {
-		GetImageElement(&ImageInfo->ImageElement[i]);
-	}
-
-	iseek(52, IL_SEEK_CUR);  // Skip padding bytes.
-
-	return IL_TRUE;
-}
-
-
-ILboolean DpxGetImageOrient(DPX_IMAGE_ORIENT *ImageOrient)
-{
-	ImageOrient->XOffset = GetBigUInt();
-	ImageOrient->YOffset = GetBigUInt();
-	iread(&ImageOrient->XCenter, 4, 1);
-	iread(&ImageOrient->YCenter, 4, 1);
-	ImageOrient->XOrigSize = GetBigUInt();
-	ImageOrient->YOrigSize = GetBigUInt();
-	iread(ImageOrient->FileName, 100, 1);
-	iread(ImageOrient->CreationTime, 24, 1);
-	iread(ImageOrient->InputDev, 32, 1);
-	if (iread(ImageOrient->InputSerial, 32, 1) != 1)
-		return IL_FALSE;
-	ImageOrient->Border[0] = GetBigUShort();
-	ImageOrient->Border[1] = GetBigUShort();
-	ImageOrient->Border[2] = GetBigUShort();
-	ImageOrient->Border[3] = GetBigUShort();
-	ImageOrient->PixelAspect[0] = GetBigUInt();
-	ImageOrient->PixelAspect[1] = GetBigUInt();
-	iseek(28, IL_SEEK_CUR);  // Skip reserved bytes.
-
-	return IL_TRUE;
+	return (ILushort)(Big ? Data[0] << 8 | Data[1] : Data[1] << 8 | Data[0]);
 }
 
 
 // Internal function used to load the DPX.
 ILboolean iLoadDpxInternal(void)
 {
-	DPX_FILE_INFO		FileInfo;
-	DPX_IMAGE_INFO		ImageInfo;
-	DPX_IMAGE_ORIENT	ImageOrient;
-//	BITFILE		*File;
-	ILuint		i, NumElements, CurElem = 0;
-	ILushort	Val, *ShortData;
-	ILubyte		Data[8];
-	ILenum		Format = 0;
-	ILubyte		NumChans = 0;
-
+	ILubyte		Head[1664], *Elem, *Line = NULL;  // All parts of the header that are not optional
+	ILushort	*Short;
+	ILuint		Width, Height, Offset, Padding, Bits, Packing, Encoding, Orient, NumChans, NumVals, LineSize, Word = 0, x, y;
+	ILenum		Format;
+	ILboolean	Big;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	
-	if (!DpxGetFileInfo(&FileInfo))
-		return IL_FALSE;
-	if (!DpxGetImageInfo(&ImageInfo))
+
+	if (iread(Head, 1, sizeof(Head)) != sizeof(Head))
 		return IL_FALSE;
-	if (!DpxGetImageOrient(&ImageOrient))
+	if (!memcmp(Head, "SDPX", 4))
+		Big = IL_TRUE;
+	else if (!memcmp(Head, "XPDS", 4))
+		Big = IL_FALSE;
+	else {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
-	iseek(ImageInfo.ImageElement[CurElem].DataOffset, IL_SEEK_SET);
-
-//@TODO: Deal with different origins!
-
-	switch (ImageInfo.ImageElement[CurElem].Descriptor)
+	Orient = DpxGetUShort(Head + 768, Big);
+	Width = DpxGetUInt(Head + 772, Big);
+	Height = DpxGetUInt(Head + 776, Big);
+	Elem = Head + 780;  // Just the first element is read.
+	Bits = Elem[23];
+	Packing = DpxGetUShort(Elem + 24, Big);
+	Encoding = DpxGetUShort(Elem + 26, Big);
+	Offset = DpxGetUInt(Elem + 28, Big);
+	Padding = DpxGetUInt(Elem + 32, Big);
+	if (Offset == 0xFFFFFFFF || Offset == 0)
+		Offset = DpxGetUInt(Head + 4, Big);
+	if (Padding == 0xFFFFFFFF)
+		Padding = 0;
+	if (Orient == 0xFFFF)
+		Orient = 0;
+
+	switch (Elem[20])
 	{
 		case 6:  // Luminance data
 			Format = IL_LUMINANCE;
@@ -207,117 +138,81 @@ ILboolean iLoadDpxInternal(void)
 			return IL_FALSE;
 	}
 
-	// These are all on nice word boundaries.
-	switch (ImageInfo.ImageElement[CurElem].BitSize)
+	if (Width == 0 || Height == 0 || Width > 0xFFFFFF || Height > 0xFFFFFF || Offset > 0x7FFFFFFF || Padding > 0xFFFF) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+	// Just the lines that go from the left to the right, unpacked, unsigned
+	if (Orient & ~2u || Encoding == 1 || DpxGetUInt(Elem, Big) == 1) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
+	}
+
+	NumVals = Width * NumChans;
+	switch (Bits)
 	{
 		case 8:
+			LineSize = NumVals;
+			break;
+		case 10:  // Three values in each word, which has two more bits at the end.
+			LineSize = (NumVals + 2) / 3 * 4;
+			break;
+		case 12:  // Four more bits after each value
 		case 16:
-		case 32:
-			if (!ilTexImage(ImageInfo.Width, ImageInfo.Height, 1, NumChans, Format, IL_UNSIGNED_BYTE, NULL))
-				return IL_FALSE;
-			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-			if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
-				return IL_FALSE;
-			goto finish;
+			LineSize = NumVals * 2;
+			break;
+		default:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
+			return IL_FALSE;
+	}
+	if ((Bits == 10 || Bits == 12) && Packing != 1) {
+		ilSetError(Packing == 0 || Packing == 2 ? IL_FORMAT_NOT_SUPPORTED : IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
 	}
 
-	// The rest of these do not end on word boundaries.
-	if (ImageInfo.ImageElement[CurElem].Packing == 1) {
-		// Here we have it padded out to a word boundary, so the extra bits are filler.
-		switch (ImageInfo.ImageElement[CurElem].BitSize)
+	if (iseek(Offset, IL_SEEK_SET))
+		return IL_FALSE;
+	if (!ilTexImage(Width, Height, 1, (ILubyte)NumChans, Format, Bits == 8 ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT, NULL))
+		return IL_FALSE;
+	iCurImage->Origin = (Orient & 2) ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT;
+
+	Line = (ILubyte*)ialloc(LineSize);
+	if (Line == NULL)
+		return IL_FALSE;
+	for (y = 0; y < Height; y++) {
+		if (iread(Line, 1, LineSize) != LineSize || (Padding && y + 1 < Height && iseek(Padding, IL_SEEK_CUR))) {
+			ifree(Line);
+			return IL_FALSE;
+		}
+		Short = (ILushort*)(iCurImage->Data + y * iCurImage->Bps);
+		switch (Bits)
 		{
+			case 8:
+				memcpy(iCurImage->Data + y * iCurImage->Bps, Line, LineSize);
+				break;
 			case 10:
-				//@TODO: Support other formats!
-				/*if (Format != IL_RGB) {
-					ilSetError(IL_FORMAT_NOT_SUPPORTED);
-					return IL_FALSE;
-				}*/
-				switch (Format)
-				{
-					case IL_LUMINANCE:
-						if (!ilTexImage(ImageInfo.Width, ImageInfo.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_SHORT, NULL))
-							return IL_FALSE;
-						iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-						ShortData = (ILushort*)iCurImage->Data;
-						NumElements = iCurImage->SizeOfData / 2;
-
-						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 2);
-							Val = ((Data[0] << 2) + ((Data[1] & 0xC0) >> 6)) << 6;  // Use the first 10 bits of the word-aligned data.
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
-						}
-						break;
-
-					case IL_RGB:
-						if (!ilTexImage(ImageInfo.Width, ImageInfo.Height, 1, 3, IL_RGB, IL_UNSIGNED_SHORT, NULL))
-							return IL_FALSE;
-						iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-						ShortData = (ILushort*)iCurImage->Data;
-						NumElements = iCurImage->SizeOfData / 2;
-
-						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 4);
-							Val = ((Data[0] << 2) + ((Data[1] & 0xC0) >> 6)) << 6;  // Use the first 10 bits of the word-aligned data.
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
-							Val = (((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4)) << 6;  // Use the next 10 bits.
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Same fill
-							Val = (((Data[2] & 0x0F) << 6) + ((Data[3] & 0xFC) >> 2)) << 6;  // And finally use the last 10 bits (ignores the last 2 bits).
-							ShortData[i++] = Val | ((Val & 0x3F0) >> 4);  // Same fill
-						}
-						break;
-
-					case IL_RGBA:  // Is this even a possibility?  There is a ton of wasted space here!
-						if (!ilTexImage(ImageInfo.Width, ImageInfo.Height, 1, 4, IL_RGBA, IL_UNSIGNED_SHORT, NULL))
-							return IL_FALSE;
-						iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-						ShortData = (ILushort*)iCurImage->Data;
-						NumElements = iCurImage->SizeOfData / 2;
-
-						for (i = 0; i < NumElements;) {
-							iread(Data, 1, 8);
-							Val = (Data[0] << 2) + ((Data[1] & 0xC0) >> 6);  // Use the first 10 bits of the word-aligned data.
-							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Fill in the lower 6 bits with a copy of the higher bits.
-							Val = ((Data[1] & 0x3F) << 4) + ((Data[2] & 0xF0) >> 4);  // Use the next 10 bits.
-							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Same fill
-							Val = ((Data[2] & 0x0F) << 6) + ((Data[3] & 0xFC) >> 2);  // Use the next 10 bits.
-							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Same fill
-							Val = ((Data[3] & 0x03) << 8) + Data[4];  // And finally use the last 10 relevant bits (skips 3 whole bytes worth of padding!).
-							ShortData[i++] = (Val << 6) | ((Val & 0x3F0) >> 4);  // Last fill
-						}
-						break;
+				for (x = 0; x < NumVals; x++) {
+					if (x % 3 == 0)
+						Word = DpxGetUInt(Line + x / 3 * 4, Big);
+					Short[x] = (ILushort)((Word >> (22 - x % 3 * 10)) & 0x3FF);
+					Short[x] = Short[x] << 6 | Short[x] >> 4;  // Fill in the lower 6 bits with a copy of the higher bits.
+				}
+				break;
+			case 12:
+				for (x = 0; x < NumVals; x++) {
+					Short[x] = DpxGetUShort(Line + x * 2, Big) & 0xFFF0;
+					Short[x] |= Short[x] >> 12;
+				}
+				break;
+			case 16:
+				for (x = 0; x < NumVals; x++) {
+					Short[x] = DpxGetUShort(Line + x * 2, Big);
 				}
 				break;
-
-			//case 1:
-			//case 12:
-			default:
-				ilSetError(IL_FORMAT_NOT_SUPPORTED);
-				return IL_FALSE;
-		}
-	}
-	else if (ImageInfo.ImageElement[0].Packing == 0) {
-		// Here we have the data packed so that it is never aligned on a word boundary.
-		/*File = bfile(iGetFile());
-		if (File == NULL)
-			return IL_FALSE;  //@TODO: Error?
-		ShortData = (ILushort*)iCurImage->Data;
-		NumElements = iCurImage->SizeOfData / 2;
-		for (i = 0; i < NumElements; i++) {
-			//bread(&Val, 1, 10, File);
-			Val = breadVal(10, File);
-			ShortData[i] = (Val << 6) | (Val >> 4);
 		}
-		bclose(File);*/
-
-		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
-	}
-	else {
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return IL_FALSE;  //@TODO: Take care of this in an iCheckDpx* function.
 	}
+	ifree(Line);
 
-finish:
 	return ilFixImage();
 }
 
-- 
2.43.0


From 21ac9af054a2289b28bb7febcd7524426f88624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 110/161] fix: read KTX files of any size, byte order and
 number of mipmaps

---
 DevIL/src-IL/src/il_ktx.cpp | 326 +++++++++++++++++-------------------
 1 file changed, 156 insertions(+), 170 deletions(-)

diff --git a/DevIL/src-IL/src/il_ktx.cpp b/DevIL/src-IL/src/il_ktx.cpp
index 51db2da..56630c4 100644
--- a/DevIL/src-IL/src/il_ktx.cpp
+++ b/DevIL/src-IL/src/il_ktx.cpp
@@ -19,8 +19,9 @@
 
 ILboolean	iIsValidKtx(void);
 ILboolean	iLoadKtxInternal();
-ILboolean	iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin);
-ILboolean	iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin);
+ILboolean	iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILboolean Big, ILenum Origin);
+ILboolean	iKtxKeyValueData(ILuint bytesOfKeyValueData, ILboolean Big, ILenum &Origin);
+static void	iKtxUInt(ILuint *Value, ILboolean Big);
 
 
 #ifdef _MSC_VER
@@ -127,15 +128,26 @@ ILboolean ilIsValidKtxL(const void *Lump, ILuint Size)
 }
 
 
+// Checks if the identifier of the file and its byte order are valid.
+static ILboolean iCheckKtx(const ILubyte *Head)
+{
+	static const ILubyte Identifier[12] = {
+		0xAB, 'K', 'T', 'X', ' ', '1', '1', 0xBB, '\r', '\n', 0x1A, '\n'
+	};
+
+	return !memcmp(Head, Identifier, 12) && (!memcmp(Head + 12, "\x01\x02\x03\x04", 4) || !memcmp(Head + 12, "\x04\x03\x02\x01", 4));
+}
+
+
 ILboolean iIsValidKtx()
 {
-	ILubyte 	Signature[8];
-	ILint		Read;
+	ILubyte 	Head[16];
+	ILuint		Read;
 
-	/*Read = iread(Signature, 1, 8);
-	iseek(-Read, IL_SEEK_CUR);*/
+	Read = iread(Head, 1, sizeof(Head));
+	iseek(-(ILint)Read, IL_SEEK_CUR);
 
-	return IL_FALSE;
+	return Read == sizeof(Head) && iCheckKtx(Head);
 }
 
 
@@ -186,64 +198,38 @@ ILboolean ilLoadKtxL(const void *Lump, ILuint Size)
 ILboolean iLoadKtxInternal()
 {
 	KTX_HEAD	Header;
-	ILuint		imageSize;
+	ILuint		*Value;
 	ILenum		Format, Type, Origin;
 	ILubyte		Bpp, Bpc;
-	ILboolean	Compressed;
-	char		FileIdentifier[12] = {
-		//0xAB, 0x4B, 0x54, 0x58, 0x20, 0x31, 0x31, 0xBB, 0x0D, 0x0A, 0x1A, 0x0A
-		'�', 'K', 'T', 'X', ' ', '1', '1', '�', '\r', '\n', '\x1A', '\n'
-	};
+	ILboolean	Compressed = IL_FALSE, Big;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	/*Header.Width = GetLittleShort();
-	Header.Height = GetLittleShort();
-	Header.Dummy = GetLittleInt();*/
-
-	if (iread(Header.identifier, 1, 12) != 12)
+	if (iread(&Header, 1, sizeof(Header)) != sizeof(Header))
 		return IL_FALSE;
-	Header.endianness = GetLittleUInt();
-	Header.glType = GetLittleUInt();
-	Header.glTypeSize = GetLittleUInt();
-	Header.glFormat = GetLittleUInt();
-	Header.glInternalFormat = GetLittleUInt();
-	Header.glBaseInternalFormat = GetLittleUInt();
-	Header.pixelWidth = GetLittleUInt();
-	Header.pixelHeight = GetLittleUInt();
-	Header.pixelDepth = GetLittleUInt();
-	Header.numberOfArrayElements = GetLittleUInt();
-	Header.numberOfFaces = GetLittleUInt();
-	Header.numberOfMipmapLevels = GetLittleUInt();
-	Header.bytesOfKeyValueData = GetLittleUInt();
-
-	if (memcmp(Header.identifier, FileIdentifier, 12) || Header.endianness != 0x04030201) {
+	if (!iCheckKtx(Header.identifier)) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
 	}
+	// The whole file is stored in the byte order of its writer.
+	Big = *((ILubyte*)&Header.endianness) == 4;
+	for (Value = &Header.endianness; Value <= &Header.bytesOfKeyValueData; Value++)
+		iKtxUInt(Value, Big);
 
-	if (Header.glTypeSize != 1)  //@TODO: Cases when this is different?
-	{
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return IL_FALSE;
-	}
-	//@TODO: Really needed?
-	/*if (Header.glInternalFormat != Header.glFormat || Header.glBaseInternalFormat != Header.glFormat)
-	{
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return IL_FALSE;
-	}*/
-
-	//@TODO: Mipmaps, etc.
-	if (Header.numberOfArrayElements != 0 || Header.numberOfFaces != 1 /*|| Header.numberOfMipmapLevels != 1*/)
+	// No volumes, arrays and cube maps
+	if (Header.pixelWidth == 0 || Header.pixelDepth > 1 || Header.numberOfArrayElements != 0 || Header.numberOfFaces != 1 || Header.numberOfMipmapLevels > 32)
 	{
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
 	}
-	if (!iKtxKeyValueData(Header.bytesOfKeyValueData, Origin))
+	if (Header.pixelHeight == 0)  // One-dimensional
+		Header.pixelHeight = 1;
+	if (Header.numberOfMipmapLevels == 0)  // The mipmaps are to be generated by the application.
+		Header.numberOfMipmapLevels = 1;
+	if (!iKtxKeyValueData(Header.bytesOfKeyValueData, Big, Origin))
 		return IL_FALSE;
 
 	//@TODO: Additional formats
@@ -254,46 +240,23 @@ ILboolean iLoadKtxInternal()
 			case I_GL_LUMINANCE:
 				Bpp = 1;
 				Format = IL_LUMINANCE;
-				Compressed = IL_FALSE;
 				break;
 			case I_GL_LUMINANCE_ALPHA:
 				Bpp = 2;
 				Format = IL_LUMINANCE_ALPHA;
-				Compressed = IL_FALSE;
 				break;
 			case I_GL_RGB:
 				Bpp = 3;
 				Format = IL_RGB;
-				Compressed = IL_FALSE;
 				break;
 			case I_GL_RGBA:
 				Bpp = 4;
 				Format = IL_RGBA;
-				Compressed = IL_FALSE;
 				break;
 			default:
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
 		}
-	}
-	else  // Compressed formats - Note that type must be set here!
-	{
-		switch (Header.glInternalFormat)
-		{
-			case I_GL_ETC1_RGB8_OES:
-				Bpp = 4;
-				Format = IL_RGBA;
-				Compressed = IL_TRUE;
-				Type = IL_UNSIGNED_BYTE;
-				break;
-			default:
-				ilSetError(IL_ILLEGAL_FILE_VALUE);
-				return IL_FALSE;
-		}
-	}
-
-	if (!Compressed)
-	{
 		//@TODO: Additional types
 		switch (Header.glType)
 		{
@@ -310,75 +273,50 @@ ILboolean iLoadKtxInternal()
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
 		}
-
-		if (!ilTexImage(Header.pixelWidth, Header.pixelHeight, 1, Bpp, Format, Type, NULL))
-			return IL_FALSE;
-		if (!iKtxReadMipmaps(Compressed, Header.numberOfMipmapLevels, Origin))
-			return IL_FALSE;
-	}
-	else  // Compressed formats require different handling
-	{
-		//@TODO: Add support for compressed mipmaps
-		if (Header.numberOfMipmapLevels != 1)
+		if (Header.glTypeSize != Bpc)
 		{
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
-
-		imageSize = GetLittleUInt();
-
-		if (!ilTexImage(Header.pixelWidth, Header.pixelHeight, 1, Bpp, Format, Type, NULL))
-			return IL_FALSE;
-
+	}
+	else  // Compressed formats - Note that type must be set here!
+	{
 		switch (Header.glInternalFormat)
 		{
 			case I_GL_ETC1_RGB8_OES:
-				ILubyte *FullBuffer = (ILubyte*)ialloc(Header.pixelWidth * Header.pixelHeight / 2);
-				ILuint UnpackBuff[16*4];
-				ILuint *Data = (ILuint*)iCurImage->Data;  // Easier copies
-
-				if (FullBuffer == NULL)
-					return IL_FALSE;
-				if (imageSize != Header.pixelWidth * Header.pixelHeight / 2) {
-					ilSetError(IL_ILLEGAL_FILE_VALUE);
-					return IL_FALSE;
-				}
-				if (iread(FullBuffer, 1, imageSize) != imageSize)
-					return IL_FALSE;
-
-				ILuint BlockPos = 0;
-				for (ILuint y = 0; y < iCurImage->Height; y+=4)
-				{
-					for (ILuint x = 0; x < iCurImage->Width; x+=4)
-					{
-						ILuint ImagePos = y * iCurImage->Width + x;
-						rg_etc1::unpack_etc1_block(&FullBuffer[BlockPos], (ILuint*)UnpackBuff, false);
-						ILuint c = 0;
-						for (ILuint y1 = 0; y1 < 4; y1++)
-						{
-							for (ILuint x1 = 0; x1 < 4; x1++)
-							{
-								Data[ImagePos + y1*iCurImage->Width + x1] = UnpackBuff[c++];
-							}
-						}
-						BlockPos += 8;
-					}
-				}
-
-				ifree(FullBuffer);
+				Bpp = 4;
+				Format = IL_RGBA;
+				Compressed = IL_TRUE;
+				Type = IL_UNSIGNED_BYTE;
 				break;
+			default:
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
 		}
-
-		iCurImage->Origin = Origin;  //@TODO: Correct for all?
 	}
 
+	if (!ilTexImage(Header.pixelWidth, Header.pixelHeight, 1, Bpp, Format, Type, NULL))
+		return IL_FALSE;
+	if (!iKtxReadMipmaps(Compressed, Header.numberOfMipmapLevels, Big, Origin))
+		return IL_FALSE;
+
 	return ilFixImage();
 }
 
 
+// Converts a value that has just been read.
+static void iKtxUInt(ILuint *Value, ILboolean Big)
+{
+	if (Big)
+		BigUInt(Value);
+	else
+		UInt(Value);
+}
+
+
 // There are multiple items that can be in the key values, but all we care about
 //  right now is the orientation/origin data.
-ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
+ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILboolean Big, ILenum &Origin)
 {
 	ILubyte	*KeyValueData;
 	ILuint	Pos = 0, Length;
@@ -392,19 +330,25 @@ ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
 	if (KeyValueData == NULL)
 		return IL_FALSE;
 
-	if (iread(KeyValueData, 1, bytesOfKeyValueData) != bytesOfKeyValueData)
+	if (iread(KeyValueData, 1, bytesOfKeyValueData) != bytesOfKeyValueData) {
+		ifree(KeyValueData);
 		return IL_FALSE;
+	}
 
 	// Just a very rudimentary check on the origin values
-	while (Pos < bytesOfKeyValueData)
+	while (bytesOfKeyValueData - Pos >= 4)
 	{
-		Length = *((ILuint*)&KeyValueData[Pos]);
+		memcpy(&Length, &KeyValueData[Pos], 4);
+		iKtxUInt(&Length, Big);
+		Pos += 4;
+		if (Length > bytesOfKeyValueData - Pos)
+			break;
 		if (Length >= 22)  // Size needed for the KTXorientation key
 		{
-			if (!strncmp((const char*)&KeyValueData[Pos+4], "KTXorientation", 14))
+			if (!memcmp(&KeyValueData[Pos], "KTXorientation", 15))
 			{
 				// Found the orientation key we need
-				ILubyte TopDownOrient = KeyValueData[Pos+25];
+				ILubyte TopDownOrient = KeyValueData[Pos+21];
 				if (TopDownOrient == 'd')
 					Origin = IL_ORIGIN_UPPER_LEFT;
 				else if (TopDownOrient == 'u')
@@ -412,9 +356,11 @@ ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
 			}
 		}
 
+		// Each pair of key and value is padded to 4 bytes.
 		Pos += Length;
-		if (Pos >= bytesOfKeyValueData)
+		if (bytesOfKeyValueData - Pos < (4 - Length % 4) % 4)
 			break;
+		Pos += (4 - Length % 4) % 4;
 	}
 
 	ifree(KeyValueData);
@@ -423,70 +369,110 @@ ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
 }
 
 
-ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILenum Origin)
+// Reads one level of an uncompressed image.
+static ILboolean iKtxReadPixels(ILimage *Image, ILuint ImageSize, ILboolean Big)
 {
-	ILimage *Image = iCurImage;
-	ILuint Width = iCurImage->Width, Height = iCurImage->Height;
-	ILuint imageSize, Padding, Pos;
+	// Note: The KTX spec at https://www.khronos.org/opengles/sdk/tools/KTX/file_format_spec/
+	//  seems to imply dword-alignment of the entire image, but this is per scanline.
+	ILuint	Padding = 3 - ((Image->Bps + 3) % 4), Pos;
 
-	for (ILuint Mip = 0; Mip < NumMips; Mip++)
+	if (ImageSize != Image->SizeOfData + Padding*Image->Height)
 	{
-		imageSize = GetLittleUInt();
-		Padding = 3 - ((Image->Bps + 3) % 4);
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 
-		if (imageSize != Image->SizeOfData + Padding*Image->Height)
+	for (Pos = 0; Pos < Image->SizeOfData; Pos += Image->Bps)
+	{
+		if (iread(&Image->Data[Pos], 1, Image->Bps) != Image->Bps)
+			return IL_FALSE;
+		if (Padding && iseek(Padding, IL_SEEK_CUR))
+			return IL_FALSE;
+	}
+	if (Image->Bpc == 2)
+	{
+		for (Pos = 0; Pos < Image->SizeOfData; Pos += 2)
 		{
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			goto mip_fail;
+			if (Big)
+				BigUShort((ILushort*)&Image->Data[Pos]);
+			else
+				UShort((ILushort*)&Image->Data[Pos]);
 		}
+	}
 
-		// Note: The KTX spec at https://www.khronos.org/opengles/sdk/tools/KTX/file_format_spec/
-		//  seems to imply dword-alignment of the entire image, but this is per scanline.
-		if (Image->Bps % 4 == 0)  // Required to be dword-aligned
-		{
-			if (iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
-				return IL_FALSE;
-		}
-		else  // Since not dword-aligned, have to read each line separately.
+	return IL_TRUE;
+}
+
+
+// Reads one level of an ETC1 compressed image.
+static ILboolean iKtxReadEtc1(ILimage *Image, ILuint ImageSize)
+{
+	ILubyte	*FullBuffer, *Block;
+	ILuint	UnpackBuff[16], x, y, x1, y1;
+	ILuint	BlocksX = (Image->Width + 3) / 4, BlocksY = (Image->Height + 3) / 4;
+
+	if (ImageSize != BlocksX * BlocksY * 8) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	FullBuffer = (ILubyte*)ialloc(ImageSize);
+	if (FullBuffer == NULL)
+		return IL_FALSE;
+	if (iread(FullBuffer, 1, ImageSize) != ImageSize) {
+		ifree(FullBuffer);
+		return IL_FALSE;
+	}
+
+	Block = FullBuffer;
+	for (y = 0; y < Image->Height; y += 4)
+	{
+		for (x = 0; x < Image->Width; x += 4, Block += 8)
 		{
-			Pos = 0;
-			for (ILuint h = 0; h < Height; h++)
+			rg_etc1::unpack_etc1_block(Block, UnpackBuff, false);
+			for (y1 = 0; y1 < 4 && y + y1 < Image->Height; y1++)
 			{
-				if (iread(&Image->Data[Pos], 1, Image->Bps) != Image->Bps)
-					return IL_FALSE;
-				iseek(Padding, IL_SEEK_CUR);
-				Pos += Image->Bps;
+				for (x1 = 0; x1 < 4 && x + x1 < Image->Width; x1++)
+				{
+					memcpy(Image->Data + (y + y1) * Image->Bps + (x + x1) * 4, &UnpackBuff[y1 * 4 + x1], 4);
+				}
 			}
 		}
+	}
+
+	ifree(FullBuffer);
+	return IL_TRUE;
+}
 
-		Image->Origin = Origin;
-		Width = Width / 2;
-		Height = Height / 2;
 
-		if (Mip < NumMips - 1)
+ILboolean iKtxReadMipmaps(ILboolean Compressed, ILuint NumMips, ILboolean Big, ILenum Origin)
+{
+	ILimage *Image = iCurImage;
+	ILuint imageSize;
+
+	for (ILuint Mip = 0; Mip < NumMips; Mip++)
+	{
+		if (Mip > 0)
 		{
+			ILuint Width = Image->Width > 1 ? Image->Width / 2 : 1;
+			ILuint Height = Image->Height > 1 ? Image->Height / 2 : 1;
+
 			Image->Mipmaps = ilNewImage(Width, Height, 1, Image->Bpp, Image->Bpc);
 			if (Image->Mipmaps == NULL)
-				goto mip_fail;
+				return IL_FALSE;
 			Image->Mipmaps->Format = Image->Format;
 			Image->Mipmaps->Type = Image->Type;
 			Image = Image->Mipmaps;
 		}
-	}
-
-	return IL_TRUE;
+		Image->Origin = Origin;
 
-mip_fail:
-	Image = iCurImage;
-	ILimage *StartImage = Image->Mipmaps, *TempImage;
-	while (StartImage) {
-		TempImage = StartImage;
-		StartImage = StartImage->Mipmaps;
-		ifree(TempImage);
+		if (iread(&imageSize, 1, 4) != 4)
+			return IL_FALSE;
+		iKtxUInt(&imageSize, Big);
+		if (Compressed ? !iKtxReadEtc1(Image, imageSize) : !iKtxReadPixels(Image, imageSize, Big))
+			return IL_FALSE;
 	}
 
-	Image->Mipmaps = NULL;
-	return IL_FALSE;
+	return IL_TRUE;
 }
 
 #endif//IL_NO_KTX
-- 
2.43.0


From 0e9fec964e9366d6264f84966fed22ccbfc3d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 111/161] fix: stop reading PNG files at their end

---
 DevIL/src-IL/src/il_png.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 27c8215..d6da422 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -173,8 +173,8 @@ ILboolean iLoadPngInternal()
 
 static void png_read(png_structp png_ptr, png_bytep data, png_size_t length)
 {
-	(void)png_ptr;
-	iread(data, 1, (ILuint)length);
+	if (iread(data, 1, (ILuint)length) != length)
+		png_error(png_ptr, "Read error");
 	return;
 }
 
-- 
2.43.0


From 461941ea69917abaa1b63e3a408205975b81f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 112/161] fix: record an error for every load that fails

---
 DevIL/src-IL/include/il_internal.h |  1 +
 DevIL/src-IL/src/il_error.cpp      |  9 +++++++++
 DevIL/src-IL/src/il_io.cpp         | 21 +++++++++++++++++----
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 26a5891..4e80818 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -182,6 +182,7 @@ void					ilDefaultStates(void);
 void					iFreeStates(void);
 ILenum					iGetHint(ILenum Target);
 void					iQuietErrors(ILboolean Quiet);
+ILuint					iCountErrors(void);
 ILint					iGetInt(ILenum Mode);
 void					ilRemoveRegistered(void);
 ILAPI void ILAPIENTRY	ilSetCurImage(ILimage *Image);
diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index c56a8e8..a8e7604 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -20,6 +20,7 @@
 ILenum	ilErrorNum[IL_ERROR_STACK_SIZE];
 ILint	ilErrorPlace = (-1);
 static ILboolean QuietErrors = IL_FALSE;
+static ILuint ErrorsSet = 0;
 
 
 // Sets the current error
@@ -31,6 +32,7 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 	if (QuietErrors)
 		return;
 
+	ErrorsSet++;
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
 		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
@@ -52,6 +54,13 @@ void iQuietErrors(ILboolean Quiet)
 }
 
 
+// The number of errors set so far, to find out if an operation has set any
+ILuint iCountErrors(void)
+{
+	return ErrorsSet;
+}
+
+
 //! Gets the last error on the error stack
 ILenum ILAPIENTRY ilGetError(void)
 {
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 3296467..070fb9f 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1002,6 +1002,15 @@ ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
 }
 
 
+// A load that fails always tells why, so that ilGetError() never returns IL_NO_ERROR after it.
+static ILboolean iCheckLoad(ILuint Errors, ILboolean Loaded)
+{
+	if (!Loaded && iCountErrors() == Errors)
+		ilSetError(IL_FILE_READ_ERROR);
+	return Loaded;
+}
+
+
 static ILboolean iLoadAny(ILenum Type, ILconst_string FileName)
 {
 	ILboolean	bRet;
@@ -1333,10 +1342,11 @@ static ILboolean iLoadAny(ILenum Type, ILconst_string FileName)
 ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 {
 	ILimage *Image = iCurImage;
+	ILuint	Errors = iCountErrors();
 
 	if (Type == IL_TYPE_UNKNOWN)
 		return ilLoadImage(FileName);
-	return iFinishLoad(Image, iLoadAny(Type, FileName));
+	return iFinishLoad(Image, iCheckLoad(Errors, iLoadAny(Type, FileName)));
 }
 
 
@@ -1617,8 +1627,9 @@ static ILboolean iLoadFAny(ILenum Type, ILHANDLE File)
 ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 {
 	ILimage *Image = iCurImage;
+	ILuint	Errors = iCountErrors();
 
-	return iFinishLoad(Image, iLoadFAny(Type, File));
+	return iFinishLoad(Image, iCheckLoad(Errors, iLoadFAny(Type, File)));
 }
 
 
@@ -1898,8 +1909,9 @@ static ILboolean iLoadLAny(ILenum Type, const void *Lump, ILuint Size)
 ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 {
 	ILimage *Image = iCurImage;
+	ILuint	Errors = iCountErrors();
 
-	return iFinishLoad(Image, iLoadLAny(Type, Lump, Size));
+	return iFinishLoad(Image, iCheckLoad(Errors, iLoadLAny(Type, Lump, Size)));
 }
 
 
@@ -2311,6 +2323,7 @@ ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 {
 	ILimage		*Image = iCurImage;
 	ILboolean	bRet;
+	ILuint		Errors = iCountErrors();
 
 	// Try registered procedures first (so users can override default lib functions).
 	if (iCurImage != NULL && FileName != NULL && iGetExtension(FileName) != NULL) {
@@ -2318,7 +2331,7 @@ ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 			return iFinishLoad(iCurImage, bRet);
 	}
 
-	return iFinishLoad(Image, iLoadImageAny(FileName));
+	return iFinishLoad(Image, iCheckLoad(Errors, iLoadImageAny(FileName)));
 }
 
 
-- 
2.43.0


From 453d525e84dd09abede2e0ba3960e4cbdbd45437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:49 +0000
Subject: [PATCH 113/161] fix: decode the tiles of TPL textures of every format
 inside their images

---
 DevIL/src-IL/src/il_tpl.cpp | 691 ++++++++++++------------------------
 1 file changed, 226 insertions(+), 465 deletions(-)

diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index bc254fa..2531537 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -52,7 +52,8 @@ typedef struct TPLHEAD
 ILboolean iIsValidTpl(void);
 ILboolean iCheckTpl(TPLHEAD *Header);
 ILboolean iLoadTplInternal(void);
-ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat);
+ILboolean TplGetPalette(ILuint PalOff, ILubyte **Palette, ILuint *NumPal, ILuint *PalFormat);
+ILboolean TplGetImage(ILimage *Image, ILuint DataFormat, ILubyte *Palette, ILuint NumPal);
 
 
 //! Checks if the file specified in FileName is a valid TPL file.
@@ -105,9 +106,11 @@ ILboolean ilIsValidTplL(const void *Lump, ILuint Size)
 // Internal function used to get the TPL header from the current file.
 ILboolean iGetTplHead(TPLHEAD *Header)
 {
-	Header->Magic = GetBigUInt();
-	Header->nTextures = GetBigUInt();
-	Header->HeaderSize = GetBigUInt();
+	if (iread(Header, 1, sizeof(TPLHEAD)) != sizeof(TPLHEAD))
+		return IL_FALSE;
+	BigUInt(&Header->Magic);
+	BigUInt(&Header->nTextures);
+	BigUInt(&Header->HeaderSize);
 	return IL_TRUE;
 }
 
@@ -184,19 +187,21 @@ ILboolean ilLoadTplL(const void *Lump, ILuint Size)
 }
 
 
+static ILuint TplUInt(const ILubyte *Data)
+{
+	return (ILuint)Data[0] << 24 | Data[1] << 16 | Data[2] << 8 | Data[3];
+}
+
+
 // Internal function used to load the TPL.
 ILboolean iLoadTplInternal(void)
 {
 	TPLHEAD		Header;
 	ILimage		*Image/*, *BaseImage*/;
-	ILuint		Pos, TexOff, PalOff, DataFormat, Bpp, DataOff, WrapS, WrapT;
-	ILuint		x, y, xBlock, yBlock, i, j, k, n;
+	ILuint		Pos, TexOff, PalOff, DataFormat, WrapS, WrapT, Entry[2], n, n2, NumPal, PalFormat;
 	ILenum		Format;
-	ILushort	Width, Height, ShortPixel;
-	ILubyte		BytePixel, CompData[8];
-	Color8888	colours[4], *col;
-	ILushort	color_0, color_1;
-	ILuint		bitmask, Select;
+	ILushort	Width, Height;
+	ILubyte		Bpp, Head[20], *Palette;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -216,19 +221,22 @@ ILboolean iLoadTplInternal(void)
 
 	for (n = 0; n < Header.nTextures; n++) {
 		// Go back to the texture header directory for texture number n+1.
-		iseek(Pos + n * 8, IL_SEEK_SET);
-		TexOff = GetBigUInt();
-		PalOff = GetBigUInt();
+		if (iseek(Pos + n * 8, IL_SEEK_SET) || iread(Entry, 1, 8) != 8)
+			return IL_FALSE;
+		TexOff = Entry[0];
+		PalOff = Entry[1];
+		BigUInt(&TexOff);
+		BigUInt(&PalOff);
 		// Go to the texture header.
-		if (iseek(TexOff, IL_SEEK_SET))
+		if (iseek(TexOff, IL_SEEK_SET) || iread(Head, 1, sizeof(Head)) != sizeof(Head))
 			return IL_FALSE;
 
-		Height = GetBigUShort();
-		Width = GetBigUShort();
+		Height = Head[0] << 8 | Head[1];
+		Width = Head[2] << 8 | Head[3];
 		// It looks like files actually have n-1 images, with the nth one having 0 height and width.
 		if (Width == 0 || Height == 0) {
 			// If this is our first image, however, we error out.
-			if (Image == iCurImage) {
+			if (n == 0) {
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
 			}
@@ -236,10 +244,10 @@ ILboolean iLoadTplInternal(void)
 			break;
 		}
 
-		DataFormat = GetBigUInt();
-		TexOff = GetBigUInt();
-		WrapS = GetBigUInt();
-		WrapT = GetBigUInt();
+		DataFormat = TplUInt(Head + 4);
+		TexOff = TplUInt(Head + 8);
+		WrapS = TplUInt(Head + 12);
+		WrapT = TplUInt(Head + 16);
 		if (WrapS == TPL_REPEAT || WrapS == TPL_MIRROR) {
 			// By the specs, repeated and mirrored textures must have dimensions of power of 2.
 			if ((Width != ilNextPower2(Width)) || (Height != ilNextPower2(Height))) {
@@ -248,10 +256,6 @@ ILboolean iLoadTplInternal(void)
 			}
 		}
 
-		// Go to the actual texture data.
-		if (iseek(TexOff, IL_SEEK_SET))
-			return IL_FALSE;
-
 		switch (DataFormat)
 		{
 			case TPL_I4:
@@ -262,7 +266,7 @@ ILboolean iLoadTplInternal(void)
 			case TPL_IA4:
 			case TPL_IA8:
 				Format = IL_LUMINANCE_ALPHA;
-				Bpp = 1;
+				Bpp = 2;
 				break;
 			case TPL_RGB565:
 				Format = IL_RGB;
@@ -283,7 +287,7 @@ ILboolean iLoadTplInternal(void)
 				break;
 			case TPL_CI14X2:
 				Format = IL_RGBA;
-				Bpp = 3;
+				Bpp = 4;
 				break;
 			case TPL_CMP:
 				Format = IL_RGBA;
@@ -295,7 +299,7 @@ ILboolean iLoadTplInternal(void)
 				return IL_FALSE;
 		}
 
-		if (Image == iCurImage) {  // This is our first image.
+		if (n == 0) {  // This is our first image.
 			if (!ilTexImage(Width, Height, 1, Bpp, Format, IL_UNSIGNED_BYTE, NULL))
 				return IL_FALSE;
 		}
@@ -307,474 +311,231 @@ ILboolean iLoadTplInternal(void)
 		}
 		Image->Origin = IL_ORIGIN_UPPER_LEFT;  // Origins are always fixed here.
 
-		switch (DataFormat)
-		{
-			case TPL_I4:
-				// 8x8 tiles of 4-bit intensity values
-				for (y = 0; y < Image->Height; y += 8) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 8; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock += 2) {
-								BytePixel = igetc();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
-								DataOff++;
-								// We have to do this check again, so we do not go past the last pixel in the image (ex. 1 pixel wide image).
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
-								DataOff++;
-							}
-						}
-					}
-				}
-				break;
+		Palette = NULL;
+		NumPal = 0;
+		if (DataFormat == TPL_CI4 || DataFormat == TPL_CI8 || DataFormat == TPL_CI14X2) {
+			if (!TplGetPalette(PalOff, &Palette, &NumPal, &PalFormat))
+				return IL_FALSE;
+			if (DataFormat != TPL_CI14X2 && NumPal > 256)  // The rest cannot be addressed.
+				NumPal = 256;
+		}
+		// Go to the actual texture data.
+		if (iseek(TexOff, IL_SEEK_SET) || !TplGetImage(Image, DataFormat, Palette, NumPal)) {
+			ifree(Palette);
+			return IL_FALSE;
+		}
+		if (Format == IL_COLOUR_INDEX) {
+			Image->Pal.Palette = Palette;
+			Image->Pal.PalSize = NumPal * 4;
+			Image->Pal.PalType = IL_PAL_RGBA32;
+			if (PalFormat == TPL_PAL_RGB565) {  // Without alpha
+				for (n2 = 0; n2 < NumPal; n2++)
+					memmove(Palette + n2 * 3, Palette + n2 * 4, 3);
+				Image->Pal.PalSize = NumPal * 3;
+				Image->Pal.PalType = IL_PAL_RGB24;
+			}
+		}
+		else
+			ifree(Palette);
+	}
 
-			case TPL_I8:
-				// 8x4 tiles of 8-bit intensity values
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock++) {
-								if ((x + xBlock) >= Image->Width) {
-									igetc();  // Skip the pad byte.
-									continue;
-								}
-								Image->Data[DataOff] = igetc();  // Luminance value
-								DataOff++;
-							}
-						}
-					}
-				}
-				break;
+	return ilFixImage();
+}
 
-			case TPL_IA4:
-				// 8x4 tiles of 4-bit intensity and 4-bit alpha values
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock += 2) {
-								BytePixel = igetc();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
-								Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
-								DataOff += 2;
-							}
-						}
-					}
-				}
-				break;
 
-			case TPL_IA8:
-				// 4x4 tiles of 8-bit intensity and 8-bit alpha values
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock += 2) {
-								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip the pad bytes.
-									continue;
-								}
-								Image->Data[DataOff] = igetc();
-								Image->Data[DataOff+1] = igetc();
-								DataOff += 2;
-							}
-						}
-					}
-				}
-				break;
+static void TplReadRGB565(ILuint Pixel, ILubyte *Out)
+{
+	Out[0] = ((Pixel & 0xF800) >> 8) | ((Pixel & 0xE000) >> 13); // Red
+	Out[1] = ((Pixel & 0x7E0) >> 3) | ((Pixel & 0x600) >> 9); // Green
+	Out[2] = ((Pixel & 0x1f) << 3) | ((Pixel & 0x1C) >> 2); // Blue
+	Out[3] = 0xFF;
+}
 
-			case TPL_RGB565:
-				// 4x4 tiles of RGB565 data
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock++) {
-								ShortPixel = GetBigUShort();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-								Image->Data[DataOff] = ((ShortPixel & 0xF800) >> 8) | ((ShortPixel & 0xE000) >> 13); // Red
-								Image->Data[DataOff+1] = ((ShortPixel & 0x7E0) >> 3) | ((ShortPixel & 0x600) >> 9); // Green
-								Image->Data[DataOff+2] = ((ShortPixel & 0x1f) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
-								DataOff += 3;
-							}
-						}
-					}
-				}
-				break;
 
-			case TPL_RGB5A3:
-				// 4x4 tiles of either RGB5 or RGB4A3 depending on the MSB. 0x80
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							if ((y + yBlock) >= Image->Height) {
-								iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-								continue;
-							}
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock++) {
-								ShortPixel = GetBigUShort();
-								if ((x + xBlock) >= Image->Width)
-									continue;  // Already read the pad byte.
-
-								if (ShortPixel & 0x8000) {  // Check MSB.
-									// We have RGB5.
-									Image->Data[DataOff] = ((ShortPixel & 0x7C00) >> 7) | ((ShortPixel & 0x7000) >> 12); // Red
-									Image->Data[DataOff+1] = ((ShortPixel & 0x3E0) >> 2) | ((ShortPixel & 0x380) >> 7); // Green
-									Image->Data[DataOff+2] = ((ShortPixel & 0x1F) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
-									Image->Data[DataOff+3] = 0xFF;  // I am just assuming that it is opaque.
-								}
-								else {
-									// We have RGB4A3.
-									Image->Data[DataOff] = ((ShortPixel & 0x7800) >> 7) | ((ShortPixel & 0x7800) >> 11); // Red
-									Image->Data[DataOff+1] = ((ShortPixel & 0x0780) >> 3) | ((ShortPixel & 0x0780) >> 7); // Green
-									Image->Data[DataOff+2] = ((ShortPixel & 0x0078) << 1) | ((ShortPixel & 0x0078) >> 3); // Blue
-									Image->Data[DataOff+3] = ((ShortPixel & 0x07) << 5) | ((ShortPixel & 0x07) << 2) | (ShortPixel >> 1); // Alpha
-								}
-								DataOff += 3;
-							}
-						}
-					}
-				}
-				break;
+static void TplReadRGB5A3(ILuint Pixel, ILubyte *Out)
+{
+	if (Pixel & 0x8000) {  // Check MSB.
+		// We have RGB5.
+		Out[0] = ((Pixel & 0x7C00) >> 7) | ((Pixel & 0x7000) >> 12); // Red
+		Out[1] = ((Pixel & 0x3E0) >> 2) | ((Pixel & 0x380) >> 7); // Green
+		Out[2] = ((Pixel & 0x1F) << 3) | ((Pixel & 0x1C) >> 2); // Blue
+		Out[3] = 0xFF;
+	}
+	else {
+		// We have A3RGB4.
+		Out[0] = (Pixel >> 8 & 0x0F) * 17; // Red
+		Out[1] = (Pixel >> 4 & 0x0F) * 17; // Green
+		Out[2] = (Pixel & 0x0F) * 17; // Blue
+		Out[3] = (Pixel >> 12 & 7) << 5 | (Pixel >> 12 & 7) << 2 | (Pixel >> 13 & 3); // Alpha
+	}
+}
 
-			case TPL_RGBA8:
-				// 4x4 tiles of RGBA data
-				for (y = 0; y < Image->Height; y += 4) {
-					for (x = 0; x < Image->Width; x += 4) {
-						for (yBlock = 0; yBlock < 4; yBlock++) {
-							// Skip pad bytes at the bottom of the tile if any.
-							if ((y + yBlock) >= Image->Height) {
-								iseek(16, IL_SEEK_CUR);  // Entire row of pad bytes skipped
-								continue;
-							}
 
-							// First it has the AR data.
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock++) {
-								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip pad bytes.
-									continue;
-								}
-								Image->Data[DataOff+3] = igetc();  // Alpha
-								Image->Data[DataOff] = igetc();  // Red
-								DataOff += 3;
-							}
+// Reads a palette and converts it to RGBA.
+ILboolean TplGetPalette(ILuint PalOff, ILubyte **Palette, ILuint *NumPal, ILuint *PalFormat)
+{
+	ILubyte	Head[12], *Pal;
+	ILuint	i, Pixel;
 
-							// Then it has the GB data.
-							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4 && x + xBlock < Image->Width; xBlock++) {
-								if ((x + xBlock) >= Image->Width) {
-									iseek(2, IL_SEEK_CUR);  // Skip pad bytes.
-									continue;
-								}
-								Image->Data[DataOff+1] = igetc();  // Green
-								Image->Data[DataOff+2] = igetc();  // Blue
-								DataOff += 3;
-							}
-						}
-					}
-				}
-				break;
+	// Seek to the palette header.
+	if (iseek(PalOff, IL_SEEK_SET) || iread(Head, 1, sizeof(Head)) != sizeof(Head))
+		return IL_FALSE;
+	*NumPal = Head[0] << 8 | Head[1];
+	*PalFormat = TplUInt(Head + 4);
+	if (*NumPal == 0 || *PalFormat > TPL_PAL_RGB5A3) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 
-			case TPL_CI4:
-			case TPL_CI8:
-			case TPL_CI14X2:
-				// Seek to the palette header.
-				if (iseek(PalOff, IL_SEEK_SET))
-					return IL_FALSE;
-				if (!TplGetIndexImage(Image, TexOff, DataFormat))
-					return IL_FALSE;
+	// Now we have to find out where the actual palette data is stored.
+	if (iseek(TplUInt(Head + 8), IL_SEEK_SET))
+		return IL_FALSE;
+	Pal = (ILubyte*)ialloc(*NumPal * 4);
+	if (Pal == NULL)
+		return IL_FALSE;
+	for (i = 0; i < *NumPal; i++) {
+		if (iread(Head, 1, 2) != 2) {
+			ifree(Pal);
+			return IL_FALSE;
+		}
+		Pixel = Head[0] << 8 | Head[1];
+		switch (*PalFormat)
+		{
+			case TPL_PAL_IA8:
+				//@TODO: Support this format natively.
+				Pal[i * 4 + 3] = Head[0];
+				Pal[i * 4] = Pal[i * 4 + 1] = Pal[i * 4 + 2] = Head[1];
 				break;
-
-			case TPL_CMP:
-				// S3TC 2x2 blocks of 4x4 tiles.  I am assuming that this is DXT1, since it is not specified in the specs.
-				//  Most of this ended up being copied from il_dds.c, from the DecompressDXT1 function.
-				//@TODO: Make this/that code a bit more modular.
-				for (y = 0; y < Image->Height; y += 8) {
-					for (x = 0; x < Image->Width; x += 8) {
-						for (yBlock = 0; yBlock < 8 && (y + yBlock) < Image->Height; yBlock += 4) {
-							for (xBlock = 0; xBlock < 8 && (x + xBlock) < Image->Width; xBlock += 4) {
-								if (iread(CompData, 1, 8) != 8)
-									return IL_FALSE;  //@TODO: Need to do any cleanup here?
-								color_0 = *((ILushort*)CompData);
-								UShort(&color_0);
-								color_1 = *((ILushort*)(CompData + 2));
-								UShort(&color_1);
-								DxtcReadColor(color_0, colours);
-								DxtcReadColor(color_1, colours + 1);
-								bitmask = ((ILuint*)CompData)[1];
-								UInt(&bitmask);
-
-								if (color_0 > color_1) {
-									// Four-color block: derive the other two colors.
-									// 00 = color_0, 01 = color_1, 10 = color_2, 11 = color_3
-									// These 2-bit codes correspond to the 2-bit fields 
-									// stored in the 64-bit block.
-									colours[2].b = (2 * colours[0].b + colours[1].b + 1) / 3;
-									colours[2].g = (2 * colours[0].g + colours[1].g + 1) / 3;
-									colours[2].r = (2 * colours[0].r + colours[1].r + 1) / 3;
-									//colours[2].a = 0xFF;
-
-									colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
-									colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
-									colours[3].r = (colours[0].r + 2 * colours[1].r + 1) / 3;
-									colours[3].a = 0xFF;
-								}
-								else { 
-									// Three-color block: derive the other color.
-									// 00 = color_0,  01 = color_1,  10 = color_2,
-									// 11 = transparent.
-									// These 2-bit codes correspond to the 2-bit fields 
-									// stored in the 64-bit block. 
-									colours[2].b = (colours[0].b + colours[1].b) / 2;
-									colours[2].g = (colours[0].g + colours[1].g) / 2;
-									colours[2].r = (colours[0].r + colours[1].r) / 2;
-									//colours[2].a = 0xFF;
-
-									colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
-									colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
-									colours[3].r = (colours[0].r + 2 * colours[1].r + 1) / 3;
-									colours[3].a = 0x00;
-								}
-
-								for (j = 0, k = 0; j < 4; j++) {
-									for (i = 0; i < 4; i++, k++) {
-										Select = (bitmask & (0x03 << k*2)) >> k*2;
-										col = &colours[Select];
-
-										if (((x + xBlock + i) < Image->Width) && ((y + yBlock + j) < Image->Height)) {
-											DataOff = (y + yBlock + j) * Image->Bps + (x + xBlock + i) * Image->Bpp;
-											Image->Data[DataOff + 0] = col->r;
-											Image->Data[DataOff + 1] = col->g;
-											Image->Data[DataOff + 2] = col->b;
-											Image->Data[DataOff + 3] = col->a;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
+			case TPL_PAL_RGB565:
+				TplReadRGB565(Pixel, Pal + i * 4);
+				break;
+			case TPL_PAL_RGB5A3:
+				TplReadRGB5A3(Pixel, Pal + i * 4);
 				break;
 		}
 	}
 
-	return ilFixImage();
+	*Palette = Pal;
+	return IL_TRUE;
 }
 
 
-ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
+// Decodes one S3TC tile of 4x4 pixels, whose values are stored in big endian order.
+static void TplReadCmp(const ILubyte *Data, ILubyte *Out)
 {
-	ILushort	NumPal, ShortPixel;
-	ILubyte		LumVal, BytePixel;
-	ILuint		PalFormat, PalOff, PalBpp, DataOff;
-	ILuint		x, y, xBlock, yBlock, i;
-
-	NumPal = GetBigUShort();
-	iseek(2, IL_SEEK_CUR);  // Do we need to do anything with the 'unpacked' entry?  I see nothing in the specs about it.
-	PalFormat = GetBigUInt();
-
-	// Now we have to find out where the actual palette data is stored.
-	//@TODO: Do we need to set any errors here?
-	PalOff = GetBigUInt();
-	if (iseek(PalOff, IL_SEEK_SET))
-		return IL_FALSE;
-
-	switch (PalFormat)
-	{
-		case TPL_PAL_IA8:
-			Image->Pal.Palette = (ILubyte*)ialloc(NumPal * 4);
-			if (Image->Pal.Palette == NULL)
-				return IL_FALSE;
-			Image->Pal.PalType = IL_PAL_RGBA32;  //@TODO: Use this format natively.
-			Image->Pal.PalSize = NumPal * 4;
-			PalBpp = 4;
-
-			for (i = 0; i < NumPal; i++) {
-				LumVal = igetc();
-				//@TODO: Do proper conversion of luminance, or support this format natively.
-				Image->Pal.Palette[i * 4] = LumVal;  // Assign the luminance value.
-				Image->Pal.Palette[i * 4 + 1] = LumVal;
-				Image->Pal.Palette[i * 4 + 2] = LumVal;
-				Image->Pal.Palette[i * 4 + 3] = igetc();  // Get alpha value.
-			}
-			break;
-
-		case TPL_PAL_RGB565:
-			Image->Pal.Palette = (ILubyte*)ialloc(NumPal * 3);
-			if (Image->Pal.Palette == NULL)
-				return IL_FALSE;
-			Image->Pal.PalType = IL_PAL_RGB24;
-			Image->Pal.PalSize = NumPal * 3;
-			PalBpp = 3;
-
-			for (i = 0; i < NumPal; i++) {
-				ShortPixel = GetBigUShort();
-				// This is mostly the same code as in the TPL_RGB565 case.
-				Image->Pal.Palette[i*3] = ((ShortPixel & 0xF800) >> 8) | ((ShortPixel & 0xE000) >> 13); // Red
-				Image->Pal.Palette[i*3+1] = ((ShortPixel & 0x7E0) >> 3) | ((ShortPixel & 0x600) >> 9); // Green
-				Image->Pal.Palette[i*3+2] = ((ShortPixel & 0x1f) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
-			}
-			break;
+	ILuint	Col0 = Data[0] << 8 | Data[1], Col1 = Data[2] << 8 | Data[3], i;
+	ILubyte	Colours[4][4];
+
+	TplReadRGB565(Col0, Colours[0]);
+	TplReadRGB565(Col1, Colours[1]);
+	for (i = 0; i < 3; i++) {
+		if (Col0 > Col1) {
+			// Four-color block: derive the other two colors.
+			Colours[2][i] = (2 * Colours[0][i] + Colours[1][i] + 1) / 3;
+			Colours[3][i] = (Colours[0][i] + 2 * Colours[1][i] + 1) / 3;
+		}
+		else {
+			// Three-color block: derive the other color.
+			Colours[2][i] = (Colours[0][i] + Colours[1][i]) / 2;
+			Colours[3][i] = Colours[2][i];
+		}
+	}
+	Colours[2][3] = 0xFF;
+	Colours[3][3] = Col0 > Col1 ? 0xFF : 0x00;
 
-		case TPL_PAL_RGB5A3:
-			Image->Pal.Palette = (ILubyte*)ialloc(NumPal * 4);
-			if (Image->Pal.Palette == NULL)
-				return IL_FALSE;
-			Image->Pal.PalType = IL_PAL_RGBA32;
-			Image->Pal.PalSize = NumPal * 4;
-			PalBpp = 4;
-
-			for (i = 0; i < NumPal; i++) {
-				ShortPixel = GetBigUShort();
-				// This is mostly the same code as in the TPL_RGB565 case.
-				if (ShortPixel & 0x8000) {  // Check MSB.
-					// We have RGB5.
-					Image->Pal.Palette[i*4] = ((ShortPixel & 0x7C00) >> 7) | ((ShortPixel & 0x7000) >> 12); // Red
-					Image->Pal.Palette[i*4+1] = ((ShortPixel & 0x3E0) >> 2) | ((ShortPixel & 0x380) >> 7); // Green
-					Image->Pal.Palette[i*4+2] = ((ShortPixel & 0x1F) << 3) | ((ShortPixel & 0x1C) >> 2); // Blue
-					Image->Pal.Palette[i*4+3] = 0xFF;  // I am just assuming that it is opaque.
-				}
-				else {
-					// We have RGB4A3.
-					Image->Pal.Palette[i*4] = ((ShortPixel & 0x7800) >> 7) | ((ShortPixel & 0x7800) >> 11); // Red
-					Image->Pal.Palette[i*4+1] = ((ShortPixel & 0x0780) >> 3) | ((ShortPixel & 0x0780) >> 7); // Green
-					Image->Pal.Palette[i*4+2] = ((ShortPixel & 0x0078) << 1) | ((ShortPixel & 0x0078) >> 3); // Blue
-					Image->Pal.Palette[i*4+3] = ((ShortPixel & 0x07) << 5) | ((ShortPixel & 0x07) << 2) | (ShortPixel >> 1); // Alpha
-				}
-			}
-			break;
+	for (i = 0; i < 16; i++)
+		memcpy(Out + i * 4, Colours[Data[4 + i / 4] >> (6 - i % 4 * 2) & 3], 4);
+}
 
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-	}
 
-	// Go back to the texture data.
-	if (iseek(TexOff, IL_SEEK_SET))
-		return IL_FALSE;
+// Reads the tiles of an image.  Those at the right and lower edges are padded.
+ILboolean TplGetImage(ILimage *Image, ILuint DataFormat, ILubyte *Palette, ILuint NumPal)
+{
+	ILubyte	Tile[64], Cmp[2][64], *Out;
+	ILuint	TileW, TileH, TileSize, x, y, i, j, k, Pixel;
 
+	TileW = 8;
+	TileH = 4;
+	TileSize = 32;
 	switch (DataFormat)
 	{
+		case TPL_I4:
 		case TPL_CI4:
-			// 8x8 tiles of 4-bit color indices
-			//  This is the exact same code as the TPL_I4 case.
-			for (y = 0; y < Image->Height; y += 8) {
-				for (x = 0; x < Image->Width; x += 8) {
-					for (yBlock = 0; yBlock < 8; yBlock++) {
-						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-							continue;
-						}
-						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-						for (xBlock = 0; xBlock < 8; xBlock += 2) {
-							BytePixel = igetc();
-							if ((x + xBlock) >= Image->Width)
-								continue;  // Already read the pad byte.
-							Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
-							DataOff++;
-							// We have to do this check again, so we do not go past the last pixel in the image (ex. 1 pixel wide image).
-							if ((x + xBlock) >= Image->Width)
-								continue;  // Already read the pad byte.
-							Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
-							DataOff++;
-						}
-					}
-				}
-			}
+		case TPL_CMP:
+			TileH = 8;
 			break;
-
-		case TPL_CI8:
-			// 8x4 tiles of 8-bit intensity values
-			//  This is the exact same code as the TPL_I8 case.
-			for (y = 0; y < Image->Height; y += 4) {
-				for (x = 0; x < Image->Width; x += 8) {
-					for (yBlock = 0; yBlock < 4; yBlock++) {
-						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-							continue;
-						}
-						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-						for (xBlock = 0; xBlock < 8; xBlock++) {
-							if ((x + xBlock) >= Image->Width) {
-								igetc();  // Skip the pad byte.
-								continue;
-							}
-							Image->Data[DataOff] = igetc();  // Color index
-							DataOff++;
-						}
-					}
-				}
-			}
+		case TPL_IA8:
+		case TPL_RGB565:
+		case TPL_RGB5A3:
+		case TPL_CI14X2:
+			TileW = 4;
 			break;
+		case TPL_RGBA8:
+			TileW = 4;
+			TileSize = 64;
+			break;
+	}
 
-
-		//@TODO: Convert to more formats than just RGBA.
-		case TPL_CI14X2:
-			// 4x4 tiles of 14-bit indices into a palette.  Not supported at all in DevIL, since
-			//  it has a huge palette (> 256 colors).  Convert to RGBA.
-			for (y = 0; y < Image->Height; y += 4) {
-				for (x = 0; x < Image->Width; x += 4) {
-					for (yBlock = 0; yBlock < 4; yBlock++) {
-						if ((y + yBlock) >= Image->Height) {
-							iseek(8, IL_SEEK_CUR);  // Entire row of pad bytes skipped.
-							continue;
-						}
-						DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-						for (xBlock = 0; xBlock < 4; xBlock++) {
-							if ((x + xBlock) >= Image->Width) {
-								GetBigUShort();  // Skip the pad short.
-								continue;
+	for (y = 0; y < Image->Height; y += TileH) {
+		for (x = 0; x < Image->Width; x += TileW) {
+			if (iread(Tile, 1, TileSize) != TileSize)
+				return IL_FALSE;
+			for (j = 0; j < TileH && y + j < Image->Height; j++) {
+				for (i = 0; i < TileW && x + i < Image->Width; i++) {
+					k = j * TileW + i;
+					Out = Image->Data + (y + j) * Image->Bps + (x + i) * Image->Bpp;
+					switch (DataFormat)
+					{
+						case TPL_I4:
+							Out[0] = (Tile[k / 2] >> (k & 1 ? 0 : 4) & 0x0F) * 17;
+							break;
+						case TPL_CI4:
+							Out[0] = Tile[k / 2] >> (k & 1 ? 0 : 4) & 0x0F;
+							break;
+						case TPL_I8:
+						case TPL_CI8:
+							Out[0] = Tile[k];
+							break;
+						case TPL_IA4:  // The alpha values are the upper bits.
+							Out[0] = (Tile[k] & 0x0F) * 17;
+							Out[1] = (Tile[k] >> 4) * 17;
+							break;
+						case TPL_IA8:  // The alpha values are stored first.
+							Out[0] = Tile[k * 2 + 1];
+							Out[1] = Tile[k * 2];
+							break;
+						case TPL_RGB565:
+							TplReadRGB565(Tile[k * 2] << 8 | Tile[k * 2 + 1], Cmp[0]);
+							memcpy(Out, Cmp[0], 3);
+							break;
+						case TPL_RGB5A3:
+							TplReadRGB5A3(Tile[k * 2] << 8 | Tile[k * 2 + 1], Out);
+							break;
+						case TPL_RGBA8:  // First it has the AR data, then the GB data.
+							Out[0] = Tile[k * 2 + 1];
+							Out[1] = Tile[32 + k * 2];
+							Out[2] = Tile[32 + k * 2 + 1];
+							Out[3] = Tile[k * 2];
+							break;
+						case TPL_CI14X2:
+							// 14-bit indices into a palette.  Not supported at all in DevIL, since
+							//  it has a huge palette (> 256 colors).  Convert to RGBA.
+							Pixel = (Tile[k * 2] << 8 | Tile[k * 2 + 1]) & 0x3FFF;
+							if (Pixel >= NumPal) {
+								ilSetError(IL_ILLEGAL_FILE_VALUE);
+								return IL_FALSE;
 							}
-							ShortPixel = GetBigUShort();
-							ShortPixel >>= 2;  // Lower 2 bits are padding bits.
-							Image->Data[DataOff] = Image->Pal.Palette[ShortPixel * PalBpp];
-							Image->Data[DataOff+1] = Image->Pal.Palette[ShortPixel * PalBpp + 1];
-							Image->Data[DataOff+2] = Image->Pal.Palette[ShortPixel * PalBpp + 2];
-							if (PalFormat == TPL_PAL_RGB565)
-								Image->Data[DataOff+3] = 0xFF;
-							else
-								Image->Data[DataOff+3] = Image->Pal.Palette[ShortPixel * PalBpp + 3];
-							DataOff++;
-						}
+							memcpy(Out, Palette + Pixel * 4, 4);
+							break;
+						case TPL_CMP:  // S3TC 2x2 blocks of 4x4 tiles.
+							if (i % 4 == 0 && j % 4 == 0)
+								TplReadCmp(Tile + (j / 4 * 2 + i / 4) * 8, Cmp[i / 4]);
+							memcpy(Out, Cmp[i / 4] + (j % 4 * 4 + i % 4) * 4, 4);
+							break;
 					}
 				}
 			}
-			// Get rid of the palette, since we no longer need it.
-			ifree(Image->Pal.Palette);
-			Image->Pal.PalType = IL_PAL_NONE;
-			Image->Pal.PalSize = 0;
-			break;
-
+		}
 	}
 
 	return IL_TRUE;
-- 
2.43.0


From fcddbd877e3aa8dfc9d9d85e5ea74e4076752b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 114/161] fix: read BLP textures within their sizes, and free
 the buffers when they are damaged

---
 DevIL/src-IL/src/il_blp.cpp | 142 ++++++++++++++++--------------------
 1 file changed, 64 insertions(+), 78 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index 85fbc4d..73d42bc 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -121,18 +121,15 @@ ILboolean iGetBlp2Head(BLP2HEAD *Header)
 {
 	ILuint i;
 
-	iread(Header->Sig, 1, 4);
-	Header->Type = GetLittleUInt();
-	Header->Compression = igetc();
-	Header->AlphaBits = igetc();
-	Header->AlphaType = igetc();
-	Header->HasMips = igetc();
-	Header->Width = GetLittleUInt();
-	Header->Height = GetLittleUInt();
+	if (iread(Header, 1, sizeof(BLP2HEAD)) != sizeof(BLP2HEAD))
+		return IL_FALSE;
+	UInt(&Header->Type);
+	UInt(&Header->Width);
+	UInt(&Header->Height);
 	for (i = 0; i < 16; i++)
-		Header->MipOffsets[i] = GetLittleUInt();
+		UInt(&Header->MipOffsets[i]);
 	for (i = 0; i < 16; i++)
-		Header->MipLengths[i] = GetLittleUInt();
+		UInt(&Header->MipLengths[i]);
 
 	return IL_TRUE;
 }
@@ -245,8 +242,10 @@ ILboolean iLoadBlpInternal(void)
 	}
 
 //@TODO: Remove this!
-	if (Header.Type != BLP_TYPE_DXTC_RAW)
+	if (Header.Type != BLP_TYPE_DXTC_RAW) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
+	}
 
 	switch (Header.Compression)
 	{
@@ -257,7 +256,7 @@ ILboolean iLoadBlpInternal(void)
 						break;
 					if (Image->Width == 1 && Image->Height == 1)  // Already at the smallest mipmap (1x1), so we are done.
 						break;
-					if (Header.MipOffsets[Mip] == 0 || Header.MipLengths == 0)  // No more mipmaps in the file.
+					if (Header.MipOffsets[Mip] == 0 || Header.MipLengths[Mip] == 0)  // No more mipmaps in the file.
 						break;
 				}
 
@@ -274,7 +273,7 @@ ILboolean iLoadBlpInternal(void)
 							if (Image->Pal.Palette == NULL)
 								return IL_FALSE;
 							Image->Pal.PalSize = 1024;
-							Image->Pal.PalType = IL_PAL_BGRA32;  //@TODO: Find out if this is really BGRA data.
+							Image->Pal.PalType = IL_PAL_BGR32;  // Without alpha
 							if (iread(Image->Pal.Palette, 1, 1024) != 1024)  // Read in the palette.
 								return IL_FALSE;
 						}
@@ -297,8 +296,7 @@ ILboolean iLoadBlpInternal(void)
 							return IL_FALSE;
 						}
 						// Finally read in the image data.
-						iseek(Header.MipOffsets[Mip], IL_SEEK_SET);
-						if (iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
+						if (iseek(Header.MipOffsets[Mip], IL_SEEK_SET) || iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
 							return IL_FALSE;
 						break;
 
@@ -322,15 +320,17 @@ ILboolean iLoadBlpInternal(void)
 							// We only allocate this once and reuse this buffer with every mipmap (since successive ones are smaller).
 							DataAndAlpha = (ILubyte*)ialloc(Image->Width * Image->Height);
 							if (DataAndAlpha == NULL) {
-								ifree(DataAndAlpha);
 								ifree(Palette);
 								return IL_FALSE;
 							}
 						}
 						else {
 							Image->Mipmaps = ilNewImageFull(Image->Width >> 1, Image->Height >> 1, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-							if (Image->Mipmaps == NULL)
+							if (Image->Mipmaps == NULL) {
+								ifree(DataAndAlpha);
+								ifree(Palette);
 								return IL_FALSE;
+							}
 
 							// Move to the next mipmap in the linked list.
 							Image = Image->Mipmaps;
@@ -339,18 +339,17 @@ ILboolean iLoadBlpInternal(void)
 						Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
 						// Determine the size of the alpha data following the color indices.
-						AlphaSize = Image->Width * Image->Height / 8;
-						if (AlphaSize == 0)
-							AlphaSize = 1;  // Should never be 0.
+						AlphaSize = (Image->Width * Image->Height + 7) / 8;
 						// These two should be the same (tells us how much data is in the file for this mipmap level).
 						if (Header.MipLengths[Mip] != Image->SizeOfData / 4 + AlphaSize) {
+							ifree(DataAndAlpha);
+							ifree(Palette);
 							ilSetError(IL_INVALID_FILE_HEADER);
 							return IL_FALSE;
 						}
 
 						// Seek to the data and read it.
-						iseek(Header.MipOffsets[Mip], IL_SEEK_SET);						
-						if (iread(DataAndAlpha, Image->Width * Image->Height, 1) != 1) {
+						if (iseek(Header.MipOffsets[Mip], IL_SEEK_SET) || iread(DataAndAlpha, Image->Width * Image->Height, 1) != 1) {
 							ifree(DataAndAlpha);
 							ifree(Palette);
 							return IL_FALSE;
@@ -431,14 +430,20 @@ ILboolean iLoadBlpInternal(void)
 				// The origin should be in the upper left.
 				Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
+				// Blocks of 8 or 16 bytes; there is no need to allocate memory for any other size.
+				CompSize = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * (Header.AlphaBits == 8 ? 16 : 8);
+				if (CompSize != Header.MipLengths[Mip]) {
+					ilSetError(IL_INVALID_FILE_HEADER);
+					return IL_FALSE;
+				}
+
 				//@TODO: Only do the allocation once.
 				CompData = (ILubyte*)ialloc(Header.MipLengths[Mip]);
 				if (CompData == NULL)
 					return IL_FALSE;
 
 				// Read in the compressed mipmap data.
-				iseek(Header.MipOffsets[Mip], IL_SEEK_SET);
-				if (iread(CompData, 1, Header.MipLengths[Mip]) != Header.MipLengths[Mip]) {
+				if (iseek(Header.MipOffsets[Mip], IL_SEEK_SET) || iread(CompData, 1, Header.MipLengths[Mip]) != Header.MipLengths[Mip]) {
 					ifree(CompData);
 					return IL_FALSE;
 				}
@@ -447,14 +452,6 @@ ILboolean iLoadBlpInternal(void)
 				{
 					case 0:  // DXT1 without alpha
 					case 1:  // DXT1 with alpha
-						// Check to make sure that the MipLength reported is the size needed, so that
-						//  DecompressDXT1 does not crash.
-						CompSize = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 8;
-						if (CompSize != Header.MipLengths[Mip]) {
-							ilSetError(IL_INVALID_FILE_HEADER);
-							ifree(CompData);
-							return IL_FALSE;
-						}
 						if (!DecompressDXT1(Image, CompData)) {
 							ifree(CompData);
 							return IL_FALSE;
@@ -462,14 +459,6 @@ ILboolean iLoadBlpInternal(void)
 						break;
 
 					case 8:
-						// Check to make sure that the MipLength reported is the size needed, so that
-						//  DecompressDXT3/5 do not crash.
-						CompSize = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 16;
-						if (CompSize != Header.MipLengths[Mip]) {
-							ifree(CompData);
-							ilSetError(IL_INVALID_FILE_HEADER);
-							return IL_FALSE;
-						}
 						switch (Header.AlphaType)
 						{
 							case 0:  // All three of
@@ -512,17 +501,18 @@ ILboolean iGetBlp1Head(BLP1HEAD *Header)
 {
 	ILuint i;
 
-	iread(Header->Sig, 1, 4);
-	Header->Compression = GetLittleUInt();
-	Header->Flags = GetLittleUInt();
-	Header->Width = GetLittleUInt();
-	Header->Height = GetLittleUInt();
-	Header->PictureType = GetLittleUInt();
-	Header->PictureSubType = GetLittleUInt();
+	if (iread(Header, 1, sizeof(BLP1HEAD)) != sizeof(BLP1HEAD))
+		return IL_FALSE;
+	UInt(&Header->Compression);
+	UInt(&Header->Flags);
+	UInt(&Header->Width);
+	UInt(&Header->Height);
+	UInt(&Header->PictureType);
+	UInt(&Header->PictureSubType);
 	for (i = 0; i < 16; i++)
-		Header->MipOffsets[i] = GetLittleUInt();
+		UInt(&Header->MipOffsets[i]);
 	for (i = 0; i < 16; i++)
-		Header->MipLengths[i] = GetLittleUInt();
+		UInt(&Header->MipLengths[i]);
 
 	return IL_TRUE;
 }
@@ -558,7 +548,7 @@ ILboolean iLoadBlp1()
 	ILimage		*Image = iCurImage;
 	ILboolean	BaseCreated = IL_FALSE;
 #ifndef IL_NO_JPG
-	ILubyte		*JpegHeader, *JpegData;
+	ILubyte		*JpegData;
 	ILuint		JpegHeaderSize;
 #endif//IL_NO_JPG
 
@@ -579,31 +569,30 @@ ILboolean iLoadBlp1()
 			// We can only do the Jpeg decoding if we do not have IL_NO_JPEG defined.
 			return IL_FALSE;
 #else
-			JpegHeaderSize = GetLittleUInt();
-			JpegHeader = (ILubyte*)ialloc(JpegHeaderSize);
-			if (JpegHeader == NULL)
+			if (iread(&JpegHeaderSize, 1, 4) != 4)
 				return IL_FALSE;
-			// Read the shared Jpeg header.
-			if (iread(JpegHeader, 1, JpegHeaderSize) != JpegHeaderSize) {
-				ifree(JpegHeader);
+			UInt(&JpegHeaderSize);
+			// Both parts have to be sizes that DevIL can read.
+			if (JpegHeaderSize > 0x10000 || Header.MipLengths[i] > 0x7FFFFFFF - 0x10000) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
+			JpegData = (ILubyte*)ialloc(JpegHeaderSize + Header.MipLengths[i]);
+			if (JpegData == NULL)
+				return IL_FALSE;
+			// Read the shared Jpeg header, then the data of the largest mipmap.
+			if (iread(JpegData, 1, JpegHeaderSize) != JpegHeaderSize || iseek(Header.MipOffsets[i], IL_SEEK_SET)
+				|| iread(JpegData + JpegHeaderSize, 1, Header.MipLengths[i]) != Header.MipLengths[i]) {
+				ifree(JpegData);
 				return IL_FALSE;
 			}
-
-			//for (i = 0; i < 16; i++) {  // Possible maximum of 16 mipmaps
-				//@TODO: Check return value?
-				iseek(Header.MipOffsets[i], IL_SEEK_SET);
-				JpegData = (ILubyte*)ialloc(JpegHeaderSize + Header.MipLengths[i]);
-				if (JpegData == NULL) {
-					ifree(JpegHeader);
-					return IL_FALSE;
-				}
-				memcpy(JpegData, JpegHeader, JpegHeaderSize);
-				if (iread(JpegData + JpegHeaderSize, Header.MipLengths[i], 1) != 1)
-					return IL_FALSE;
 
 				// Just send the data straight to the Jpeg loader.
-				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i]))
+				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i])) {
+					ifree(JpegData);
 					return IL_FALSE;
+				}
+				Image = iCurImage;
 
 				// The image data is in BGR(A) order, even though it is Jpeg-compressed.
 				if (Image->Format == IL_RGBA)
@@ -612,8 +601,6 @@ ILboolean iLoadBlp1()
 					Image->Format = IL_BGR;
 
 				ifree(JpegData);
-			//}
-			ifree(JpegHeader);
 #endif//IL_NO_JPG
 			break;
 
@@ -629,12 +616,12 @@ ILboolean iLoadBlp1()
 							Image = iCurImage;
 							BaseCreated = IL_TRUE;
 
-							// We have a BGRA palette.
+							// We have a BGR palette with an unused byte per entry.
 							Image->Pal.Palette = (ILubyte*)ialloc(256 * 4);
 							if (Image->Pal.Palette == NULL)
 								return IL_FALSE;
 							Image->Pal.PalSize = 1024;
-							Image->Pal.PalType = IL_PAL_BGRA32;
+							Image->Pal.PalType = IL_PAL_BGR32;
 
 							// Read in the palette ...
 							if (iread(Image->Pal.Palette, 1, 1024) != 1024)
@@ -655,7 +642,7 @@ ILboolean iLoadBlp1()
 							if (Image->Mipmaps->Pal.Palette == NULL)
 								return IL_FALSE;
 							Image->Mipmaps->Pal.PalSize = 1024;
-							Image->Mipmaps->Pal.PalType = IL_PAL_BGRA32;
+							Image->Mipmaps->Pal.PalType = IL_PAL_BGR32;
 							memcpy(Image->Mipmaps->Pal.Palette, Image->Pal.Palette, 1024);
 
 							// Move to the next mipmap in the linked list.
@@ -665,8 +652,7 @@ ILboolean iLoadBlp1()
 						Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
 						// Seek to the data and read it.
-						iseek(Header.MipOffsets[i], IL_SEEK_SET);						
-						if (iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
+						if (iseek(Header.MipOffsets[i], IL_SEEK_SET) || iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
 							return IL_FALSE;
 					}
 					break;
@@ -688,12 +674,12 @@ ILboolean iLoadBlp1()
 
 					// Read in the data and the palette.
 					if (iread(Palette, 1, 1024) != 1024) {
+						ifree(DataAndAlpha);
 						ifree(Palette);
 						return IL_FALSE;
 					}
 					// Seek to the data and read it.
-					iseek(Header.MipOffsets[i], IL_SEEK_SET);						
-					if (iread(DataAndAlpha, Header.Width * Header.Height, 1) != 1) {
+					if (iseek(Header.MipOffsets[i], IL_SEEK_SET) || iread(DataAndAlpha, Header.Width * Header.Height, 1) != 1) {
 						ifree(DataAndAlpha);
 						ifree(Palette);
 						return IL_FALSE;
-- 
2.43.0


From 75cc605f907701bba1d8af4d10cd014f4b53cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 115/161] fix: read IWI textures of every size with all their
 mipmaps

---
 DevIL/src-IL/src/il_iwi.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_iwi.cpp b/DevIL/src-IL/src/il_iwi.cpp
index 5309b11..fccbdba 100644
--- a/DevIL/src-IL/src/il_iwi.cpp
+++ b/DevIL/src-IL/src/il_iwi.cpp
@@ -90,14 +90,17 @@ ILboolean ilIsValidIwiL(const void *Lump, ILuint Size)
 // Internal function used to get the IWI header from the current file.
 ILboolean iGetIwiHead(IWIHEAD *Header)
 {
-	Header->Signature = GetLittleUInt();
-	Header->Format = igetc();
-	Header->Flags = igetc();  //@TODO: Find out what the flags mean.
-	Header->Width = GetLittleUShort();
-	Header->Height = GetLittleUShort();
+	ILubyte Buffer[28];
 
+	if (iread(Buffer, 1, sizeof(Buffer)) != sizeof(Buffer))
+		return IL_FALSE;
+
+	Header->Signature = Buffer[0] | Buffer[1] << 8 | Buffer[2] << 16 | (ILuint)Buffer[3] << 24;
+	Header->Format = Buffer[4];
+	Header->Flags = Buffer[5];  //@TODO: Find out what the flags mean.
+	Header->Width = Buffer[6] | Buffer[7] << 8;
+	Header->Height = Buffer[8] | Buffer[9] << 8;
 	// @TODO: Find out what is in the rest of the header.
-	iseek(18, IL_SEEK_CUR);
 
 	return IL_TRUE;
 }
@@ -112,7 +115,7 @@ ILboolean iIsValidIwi(void)
 	if (!iGetIwiHead(&Header))
 		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckIwi(&Header);
 }
@@ -263,7 +266,7 @@ ILboolean IwiInitMipmaps(ILimage *BaseImage, ILuint *NumMips)
 	Width = BaseImage->Width;  Height = BaseImage->Height;
 	Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	for (Mipmap = 0; Width != 1 && Height != 1; Mipmap++) {
+	for (Mipmap = 0; Width != 1 || Height != 1; Mipmap++) {
 		// 1 is the smallest dimension possible.
 		Width = (Width >> 1) == 0 ? 1 : (Width >> 1);
 		Height = (Height >> 1) == 0 ? 1 : (Height >> 1);
@@ -329,7 +332,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT1:
 				// DXT1 data has at least 8 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height / 2, 8);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 8;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 6:1 compression ratio (or 8:1 for DXT1 with alpha)
 				if (CompData == NULL)
 					return IL_FALSE;
@@ -356,7 +359,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT3:
 				// DXT3 data has at least 16 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height, 16);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 16;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 				if (CompData == NULL)
 					return IL_FALSE;
@@ -374,7 +377,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 
 			case IWI_DXT5:
 				// DXT5 data has at least 16 bytes, even for one pixel.
-				SizeOfData = IL_MAX(Image->Width * Image->Height, 16);
+				SizeOfData = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 16;
 				CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 				if (CompData == NULL)
 					return IL_FALSE;
@@ -392,6 +395,7 @@ ILboolean IwiReadImage(ILimage *BaseImage, IWIHEAD *Header, ILuint NumMips)
 		}
 	
 		ifree(CompData);
+		CompData = NULL;
 	}
 
 	return IL_TRUE;
-- 
2.43.0


From 00dd2262f5715012febf29557c763ae42ca18b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 116/161] fix: read every mipmap of ROT textures and check
 their sizes

---
 DevIL/src-IL/src/il_rot.cpp | 46 ++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/DevIL/src-IL/src/il_rot.cpp b/DevIL/src-IL/src/il_rot.cpp
index c6ec36b..626ca87 100644
--- a/DevIL/src-IL/src/il_rot.cpp
+++ b/DevIL/src-IL/src/il_rot.cpp
@@ -73,7 +73,7 @@ ILboolean ilLoadRotL(const void *Lump, ILuint Size)
 ILboolean iLoadRotInternal(void)
 {
 	ILubyte		Form[4], FormName[4];
-	ILuint		FormLen, Width, Height, Format, Channels, CompSize;
+	ILuint		FormLen, Width, Height, Format, Channels, CompSize = 0;
 	ILuint		MipSize, MipLevel, MipWidth, MipHeight;
 	ILenum		FormatIL;
 	ILimage		*Image;
@@ -86,9 +86,11 @@ ILboolean iLoadRotInternal(void)
 	}
 
 	// The first entry in the file must be 'FORM', 0x20 in a big endian integer and then 'HEAD'.
-	iread(Form, 1, 4);
+	if (iread(Form, 1, 4) != 4)
+		return IL_FALSE;
 	FormLen = GetBigUInt();
-	iread(FormName, 1, 4);
+	if (iread(FormName, 1, 4) != 4)
+		return IL_FALSE;
 	if (strncmp((char*)Form, "FORM", 4) || FormLen != 0x14 || strncmp((char*)FormName, "HEAD", 4)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
@@ -116,11 +118,6 @@ ILboolean iLoadRotInternal(void)
 		case ROT_DXT5:  // DXT5
 			Channels = 4;
 			FormatIL = IL_RGBA;
-			// Allocates the maximum needed (the first width/height given in the file).
-			CompSize = ((Width + 3) / 4) * ((Height + 3) / 4) * 16;
-			CompData = (ILubyte*)ialloc(CompSize);
-			if (CompData == NULL)
-				return IL_FALSE;
 			break;
 
 		default:
@@ -137,9 +134,11 @@ ILboolean iLoadRotInternal(void)
 	GetLittleUInt();  // Skip this for the moment.  This appears to be the number of channels.
 
 	// Next comes 'FORM', a length and 'MIPS'.
-	iread(Form, 1, 4);
+	if (iread(Form, 1, 4) != 4)
+		return IL_FALSE;
 	FormLen = GetBigUInt();
-	iread(FormName, 1, 4);
+	if (iread(FormName, 1, 4) != 4)
+		return IL_FALSE;
 	//@TODO: Not sure if the FormLen has to be anything specific here.
 	if (strncmp((char*)Form, "FORM", 4) || strncmp((char*)FormName, "MIPS", 4)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
@@ -150,10 +149,12 @@ ILboolean iLoadRotInternal(void)
 	Image = iCurImage;
 	do {
 		// Then we have 'FORM' again.
-		iread(Form, 1, 4);
+		if (iread(Form, 1, 4) != 4)
+			return IL_FALSE;
 		// This is the size of the mipmap data.
 		MipSize = GetBigUInt();
-		iread(FormName, 1, 4);
+		if (iread(FormName, 1, 4) != 4)
+			return IL_FALSE;
 		if (strncmp((char*)Form, "FORM", 4)) {
 			if (!BaseCreated) {  // Our file is malformed.
 				ilSetError(IL_INVALID_FILE_HEADER);
@@ -174,7 +175,7 @@ ILboolean iLoadRotInternal(void)
 		MipSize = GetLittleUInt();  // This is the same as the previous size listed -20 (for attributes).
 
 		// Lower level mipmaps cannot be larger than the main image.
-		if (MipWidth > Width || MipHeight > Height || MipSize > CompSize) {
+		if (MipWidth == 0 || MipHeight == 0 || MipWidth > Width || MipHeight > Height) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
@@ -187,12 +188,18 @@ ILboolean iLoadRotInternal(void)
 		}
 		else {
 			Image->Mipmaps = ilNewImageFull(MipWidth, MipHeight, 1, Channels, FormatIL, IL_UNSIGNED_BYTE, NULL);
+			if (Image->Mipmaps == NULL)
+				return IL_FALSE;
 			Image = Image->Mipmaps;
 		}
 
 		switch (Format)
 		{
 			case ROT_RGBA32:  // 32-bit RGBA format
+				if (MipSize != Image->SizeOfData) {
+					ilSetError(IL_INVALID_FILE_HEADER);
+					return IL_FALSE;
+				}
 				if (iread(Image->Data, Image->SizeOfData, 1) != 1)
 					return IL_FALSE;
 				break;
@@ -209,8 +216,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT1 data...
-				if (iread(CompData, CompSize, 1) != 1)
+				if (iread(CompData, CompSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT1(Image, CompData)) {
 					ifree(CompData);
@@ -236,8 +245,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT3 data...
-				if (iread(CompData, MipSize, 1) != 1)
+				if (iread(CompData, MipSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT3(Image, CompData)) {
 					ifree(CompData);
@@ -263,8 +274,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT5 data...
-				if (iread(CompData, MipSize, 1) != 1)
+				if (iread(CompData, MipSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT5(Image, CompData)) {
 					ifree(CompData);
@@ -280,6 +293,7 @@ ILboolean iLoadRotInternal(void)
 				break;
 		}
 		ifree(CompData);  // Free it if it was not saved.
+		CompData = NULL;
 	} while (!ieof());  //@TODO: Is there any other condition that should end this?
 
 	return ilFixImage();
-- 
2.43.0


From 7b5dfe96480255aa14076d864439d00e1b42cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 117/161] fix: free the line buffer of Scitex files and notice
 when they are cut off

---
 DevIL/src-IL/src/il_scitex.cpp | 40 +++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/DevIL/src-IL/src/il_scitex.cpp b/DevIL/src-IL/src/il_scitex.cpp
index c2a863d..39954ee 100644
--- a/DevIL/src-IL/src/il_scitex.cpp
+++ b/DevIL/src-IL/src/il_scitex.cpp
@@ -27,8 +27,8 @@ typedef struct SCITEXHEAD
 	ILushort ColorModel;	// Color model (7=RGB, 8=GREYSCALE, 15=CMYK)
 	ILfloat	HeightUnits;	// Physical height
 	ILfloat	WidthUnits;		// Physical width
-	ILuint	HeightPixels;
-	ILuint	WidthPixels;
+	ILint	HeightPixels;
+	ILint	WidthPixels;
 } SCITEXHEAD;
 
 ILboolean iIsValidScitex(void);
@@ -45,7 +45,7 @@ ILboolean iGetScitexHead(SCITEXHEAD *Header)
 		return IL_FALSE;
 	if (iread(Header->Sig, 1, 2) != 2)
 		return IL_FALSE;
-	if (iseek(942, IL_SEEK_CUR) == -1)
+	if (iseek(942, IL_SEEK_CUR))
 		return IL_FALSE;
 	Header->Units = igetc();
 	Header->NumChans = igetc();
@@ -59,15 +59,15 @@ ILboolean iGetScitexHead(SCITEXHEAD *Header)
 	if (iread(&WidthPixels, 1, 12) != 12)
 		return IL_FALSE;
 
-	HeightUnits[14] = NULL;
-	WidthUnits[14] = NULL;
-	HeightPixels[12] = NULL;
-	WidthPixels[12] = NULL;
+	HeightUnits[14] = 0;
+	WidthUnits[14] = 0;
+	HeightPixels[12] = 0;
+	WidthPixels[12] = 0;
 
 	Header->HeightUnits = (ILfloat)atof(HeightUnits);
 	Header->WidthUnits = (ILfloat)atof(WidthUnits);
 	Header->HeightPixels = (ILint)atoi(HeightPixels);
-	Header->WidthPixels = (ILint)atof(WidthPixels);
+	Header->WidthPixels = (ILint)atoi(WidthPixels);
 
 	switch (Header->ColorModel)
 	{
@@ -137,11 +137,12 @@ ILboolean ilIsValidScitexL(const void *Lump, ILuint Size)
 // Internal function to get the header and check it.
 ILboolean iIsValidScitex(void)
 {
-	SCITEXHEAD Header;
+	SCITEXHEAD	Header;
+	ILuint		Pos = itell();
 
 	if (!iGetScitexHead(&Header))
 		return IL_FALSE;
-	iseek(-2048, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckScitex(&Header);
 }
@@ -227,10 +228,12 @@ ILboolean iLoadScitexInternal(void)
 		return IL_FALSE;
 	}
 	if (!iCheckScitex(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
-	iseek(2048, IL_SEEK_SET);
+	if (iseek(2048, IL_SEEK_SET))
+		return IL_FALSE;
 	RowData = (ILubyte*)ialloc(Header.WidthPixels);
 	if (RowData == NULL)
 		return IL_FALSE;
@@ -238,18 +241,17 @@ ILboolean iLoadScitexInternal(void)
 	switch (Header.ColorModel)
 	{
 		case 7:
-			if (!ilTexImage(Header.WidthPixels, Header.HeightPixels, 1, Header.NumChans, 0, IL_UNSIGNED_BYTE, NULL))
+			if (!ilTexImage(Header.WidthPixels, Header.HeightPixels, 1, Header.NumChans, Header.ColorModel == 7 ? IL_RGB : IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
 			{
 				ifree(RowData);
 				return IL_FALSE;
 			}
-			iCurImage->Format = IL_RGB;
 
 			for (ILuint h = 0; h < iCurImage->Height; h++)
 			{
 				for (ILuint c = 0; c < iCurImage->Bpp; c++)
 				{
-					if (iread(RowData, 1, Header.WidthPixels) != Header.WidthPixels)
+					if (iread(RowData, 1, Header.WidthPixels) != (ILuint)Header.WidthPixels)
 					{
 						ifree(RowData);
 						return IL_FALSE;
@@ -266,16 +268,19 @@ ILboolean iLoadScitexInternal(void)
 			break;
 
 		case 8:
-			if (!ilTexImage(Header.WidthPixels, Header.HeightPixels, 1, Header.NumChans, 0, IL_UNSIGNED_BYTE, NULL))
+			if (!ilTexImage(Header.WidthPixels, Header.HeightPixels, 1, Header.NumChans, Header.ColorModel == 7 ? IL_RGB : IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
 			{
 				ifree(RowData);
 				return IL_FALSE;
 			}
-			iCurImage->Format = IL_LUMINANCE;
 
 			for (ILuint h = 0; h < iCurImage->Height; h++)
 			{
-				iread(iCurImage->Data + Pos, 1, iCurImage->Width);
+				if (iread(iCurImage->Data + Pos, 1, iCurImage->Width) != iCurImage->Width)
+				{
+					ifree(RowData);
+					return IL_FALSE;
+				}
 				if (iCurImage->Width % 2 != 0)  // Pads to even width
 					igetc();
 				Pos += Header.WidthPixels;
@@ -286,6 +291,7 @@ ILboolean iLoadScitexInternal(void)
 		//case 15:
 		//default:
 	}
+	ifree(RowData);
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	return ilFixImage();
-- 
2.43.0


From c67d6e5b39051702b177e0bee33de6529048fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 118/161] fix: load all textures of Half-Life models instead of
 crashing after the first

---
 DevIL/src-IL/src/il_mdl.cpp | 49 +++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 6e5d81a..72f4682 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -69,11 +69,11 @@ ILboolean ilIsValidMdlL(const void *Lump, ILuint Size)
 // Internal function to get the header and check it.
 ILboolean iIsValidMdl(void)
 {
-	ILuint Id, Version;
+	ILuint Id, Version, Pos = itell();
 
 	Id = GetLittleUInt();
 	Version = GetLittleUInt();
-	iseek(-8, IL_SEEK_CUR);  // Restore to previous position.
+	iseek(Pos, IL_SEEK_SET);  // Restore to previous position.
 
 	// 0x54534449 == "IDST"
 	if (Id != 0x54534449 || Version != 10)
@@ -158,54 +158,51 @@ ILboolean iLoadMdlInternal()
 		return IL_FALSE;
 	}
 
-	iseek(TexOff, IL_SEEK_SET);
+	BaseImage = iCurImage;
+	if (iseek(TexOff, IL_SEEK_SET))
+		return IL_FALSE;
 
 	for (ImageNum = 0; ImageNum < NumTex; ImageNum++) {
 		if (iread(TexHead.Name, 1, 64) != 64)
-			return IL_FALSE;
+			goto failed;
 		TexHead.Flags = GetLittleUInt();
 		TexHead.Width = GetLittleUInt();
 		TexHead.Height = GetLittleUInt();
 		TexHead.Offset = GetLittleUInt();
 		Position = itell();
 
-		if (TexHead.Offset == 0) {
+		if (TexHead.Offset == 0 || TexHead.Width == 0 || TexHead.Height == 0) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
+			goto failed;
 		}
 
 		if (!BaseCreated) {
-			ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+				goto failed;
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 			BaseCreated = IL_TRUE;
-			BaseImage = iCurImage;
-			//iCurImage->NumNext = NumTex - 1;  // Don't count the first image.
 		}
 		else {
-			//iCurImage->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
+			iCurImage->Next = ilNewImageFull(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
+			if (iCurImage->Next == NULL)
+				goto failed;
 			iCurImage = iCurImage->Next;
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Type = IL_UNSIGNED_BYTE;
+			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 		}
 
 		TempPal	= (ILubyte*)ialloc(768);
-		if (TempPal == NULL) {
-			iCurImage = BaseImage;
-			return IL_FALSE;
-		}
+		if (TempPal == NULL)
+			goto failed;
 		iCurImage->Pal.Palette = TempPal;
 		iCurImage->Pal.PalSize = 768;
 		iCurImage->Pal.PalType = IL_PAL_RGB24;
 
-		iseek(TexHead.Offset, IL_SEEK_SET);
-		if (iread(iCurImage->Data, TexHead.Width * TexHead.Height, 1) != 1)
-			return IL_FALSE;
+		if (iseek(TexHead.Offset, IL_SEEK_SET))
+			goto failed;
+		if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
+			goto failed;
 		if (iread(iCurImage->Pal.Palette, 1, 768) != 768)
-			return IL_FALSE;
-
-		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
-			ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
-		}
+			goto failed;
 
 		iseek(Position, IL_SEEK_SET);
 	}
@@ -213,6 +210,10 @@ ILboolean iLoadMdlInternal()
 	iCurImage = BaseImage;
 
 	return ilFixImage();
+
+failed:
+	iCurImage = BaseImage;
+	return IL_FALSE;
 }
 
 #endif//IL_NO_MDL
-- 
2.43.0


From 650c0c99ff318daf476db2fd7aa78f656e676ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 119/161] fix: swap the bytes of doubles without losing half of
 them

---
 DevIL/src-IL/src/il_endian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_endian.cpp b/DevIL/src-IL/src/il_endian.cpp
index 9098687..645020a 100644
--- a/DevIL/src-IL/src/il_endian.cpp
+++ b/DevIL/src-IL/src/il_endian.cpp
@@ -74,7 +74,7 @@ void iSwapDouble(ILdouble *d) {
 		: "r"  (t[0]), "r"  (t[1]));
 	#else
 	ILubyte t,*b = (ILubyte*)d;
-	#define dswap(x,y) t=b[x];b[x]=b[y];b[y]=b[x];
+	#define dswap(x,y) t=b[x];b[x]=b[y];b[y]=t;
 	dswap(0,7);
 	dswap(1,6);
 	dswap(2,5);
-- 
2.43.0


From d76eba767bda0e7a6edabd6a05821d22df822c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 120/161] fix: read FITS files with padding, doubles, and black
 or cut off pictures

---
 DevIL/src-IL/src/il_fits.cpp | 46 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/DevIL/src-IL/src/il_fits.cpp b/DevIL/src-IL/src/il_fits.cpp
index cf375ce..c6b725b 100644
--- a/DevIL/src-IL/src/il_fits.cpp
+++ b/DevIL/src-IL/src/il_fits.cpp
@@ -100,9 +100,10 @@ ILboolean ilIsValidFitsL(const void *Lump, ILuint Size)
 ILboolean iGetFitsHead(FITSHEAD *Header)
 {
 	ILenum	CardKey;
+	ILuint	Start = itell();
 
 //@TODO: Use something other than memset?
-	memset(Header, 0, sizeof(Header));  // Clear the header to all 0s first.
+	memset(Header, 0, sizeof(FITSHEAD));  // Clear the header to all 0s first.
 
 	do {
 		CardKey = GetCardImage(Header);
@@ -119,7 +120,7 @@ ILboolean iGetFitsHead(FITSHEAD *Header)
 		return IL_FALSE;  // Error needed?
 
 	// The header must always be a multiple of 2880, so we skip the padding bytes (spaces).
-	iseek((2880 - (itell() % 2880)) % 2880, IL_SEEK_CUR);
+	iseek((2880 - ((itell() - Start) % 2880)) % 2880, IL_SEEK_CUR);
 
 	switch (Header->BitsPixel)
 	{
@@ -182,7 +183,7 @@ ILboolean iIsValidFits(void)
 	if (!iGetFitsHead(&Header))
 		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckFits(&Header);
 }
@@ -286,58 +287,57 @@ ILboolean iLoadFitsInternal(void)
 	if (!ilTexImage(Header.Width, Header.Height, Header.Depth, Header.NumChans, Header.Format, Header.Type, NULL))
 		return IL_FALSE;
 
-	/*if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
-		return IL_FALSE;*/
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
+		return IL_FALSE;
 
-	NumPix = Header.Width * Header.Height * Header.Depth;
-//@TODO: Do some checks while reading to see if we have hit the end of the file.
+	NumPix = iCurImage->SizeOfData / iCurImage->Bpc;
+	// The values are stored in big endian order.
 	switch (Header.Type)
 	{
-		case IL_UNSIGNED_BYTE:
-			if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
-				return IL_FALSE;
-			break;
 		case IL_SHORT:
 			for (i = 0; i < NumPix; i++) {
-				((ILshort*)iCurImage->Data)[i] = GetBigShort();
+				BigShort(&((ILshort*)iCurImage->Data)[i]);
 			}
 			break;
 		case IL_INT:
 			for (i = 0; i < NumPix; i++) {
-				((ILint*)iCurImage->Data)[i] = GetBigInt();
+				BigInt(&((ILint*)iCurImage->Data)[i]);
 			}
 			break;
 		case IL_FLOAT:
 			for (i = 0; i < NumPix; i++) {
-				((ILfloat*)iCurImage->Data)[i] = GetBigFloat();
+				BigFloat(&((ILfloat*)iCurImage->Data)[i]);
 				if (((ILfloat*)iCurImage->Data)[i] > MaxF)
 					MaxF = ((ILfloat*)iCurImage->Data)[i];
 			}
 
 			// Renormalize to [0..1].
 			for (i = 0; i < NumPix; i++) {
-				// Change all negative numbers to 0.
-				if (((ILfloat*)iCurImage->Data)[i] < 0.0f)
+				// Change all negative numbers (and values that are not numbers) to 0.
+				if (!(((ILfloat*)iCurImage->Data)[i] > 0.0f))
 					((ILfloat*)iCurImage->Data)[i] = 0.0f;
 				// Do the renormalization now, dividing by the maximum value.
-				((ILfloat*)iCurImage->Data)[i] = ((ILfloat*)iCurImage->Data)[i] / MaxF;
+				else
+					((ILfloat*)iCurImage->Data)[i] = ((ILfloat*)iCurImage->Data)[i] / MaxF;
 			}
 			break;
 		case IL_DOUBLE:
 			for (i = 0; i < NumPix; i++) {
-				((ILdouble*)iCurImage->Data)[i] = GetBigDouble();
+				BigDouble(&((ILdouble*)iCurImage->Data)[i]);
 				if (((ILdouble*)iCurImage->Data)[i] > MaxD)
 					MaxD = ((ILdouble*)iCurImage->Data)[i];
 			}
 
 			// Renormalize to [0..1].
 			for (i = 0; i < NumPix; i++) {
-				// Change all negative numbers to 0.
-				if (((ILdouble*)iCurImage->Data)[i] < 0.0f)
-					((ILdouble*)iCurImage->Data)[i] = 0.0f;
+				// Change all negative numbers (and values that are not numbers) to 0.
+				if (!(((ILdouble*)iCurImage->Data)[i] > 0.0))
+					((ILdouble*)iCurImage->Data)[i] = 0.0;
 				// Do the renormalization now, dividing by the maximum value.
-				((ILdouble*)iCurImage->Data)[i] = ((ILdouble*)iCurImage->Data)[i] / MaxD;
-			}			break;
+				else
+					((ILdouble*)iCurImage->Data)[i] = ((ILdouble*)iCurImage->Data)[i] / MaxD;
+			}
+			break;
 	}
 
 	return ilFixImage();
-- 
2.43.0


From 6125ea3adc5bb097366721ae2e0acf65daa485c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 121/161] fix: read the lengths and the number of frames of
 DICOM files

---
 DevIL/src-IL/src/il_dicom.cpp | 61 +++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/DevIL/src-IL/src/il_dicom.cpp b/DevIL/src-IL/src/il_dicom.cpp
index c8074a6..650f272 100644
--- a/DevIL/src-IL/src/il_dicom.cpp
+++ b/DevIL/src-IL/src/il_dicom.cpp
@@ -105,7 +105,7 @@ ILboolean iIsValidDicom(void)
 	if (!iGetDicomHead(&Header))
 		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckDicom(&Header);
 }
@@ -294,9 +294,10 @@ ILboolean SkipElement(DICOMHEAD *Header, ILushort GroupNum, ILushort ElementNum)
 
 ILuint GetGroupNum(DICOMHEAD *Header)
 {
-	ILushort GroupNum;
+	ILushort GroupNum = 0;
 
-	iread(&GroupNum, 1, 2);
+	if (iread(&GroupNum, 1, 2) != 2)
+		return 0;
 	// The 0x02 group is always little endian.
 	if (GroupNum == 0x02) {
 		UShort(&GroupNum);
@@ -314,9 +315,10 @@ ILuint GetGroupNum(DICOMHEAD *Header)
 
 ILuint GetShort(DICOMHEAD *Header, ILushort GroupNum)
 {
-	ILushort Num;
+	ILushort Num = 0;
 
-	iread(&Num, 1, 2);
+	if (iread(&Num, 1, 2) != 2)
+		return 0;
 	// The 0x02 group is always little endian.
 	if (GroupNum == 0x02) {
 		UShort(&Num);
@@ -334,9 +336,10 @@ ILuint GetShort(DICOMHEAD *Header, ILushort GroupNum)
 
 ILuint GetInt(DICOMHEAD *Header, ILushort GroupNum)
 {
-	ILuint Num;
+	ILuint Num = 0;
 
-	iread(&Num, 1, 4);
+	if (iread(&Num, 1, 4) != 4)
+		return 0;
 	// The 0x02 group is always little endian.
 	if (GroupNum == 0x02) {
 		UInt(&Num);
@@ -354,9 +357,10 @@ ILuint GetInt(DICOMHEAD *Header, ILushort GroupNum)
 
 ILfloat GetFloat(DICOMHEAD *Header, ILushort GroupNum)
 {
-	ILfloat Num;
+	ILfloat Num = 0;
 
-	iread(&Num, 1, 4);
+	if (iread(&Num, 1, 4) != 4)
+		return 0;
 	// The 0x02 group is always little endian.
 	if (GroupNum == 0x02) {
 		Float(&Num);
@@ -385,11 +389,11 @@ ILboolean GetNumericValue(DICOMHEAD *Header, ILushort GroupNum, ILuint *Number)
 		ValLen = GetShort(Header, GroupNum);//GetLittleUShort();
 		if (ValLen != 2)  // Must always be 2 for short ('US')
 			return IL_FALSE;
-		*((ILushort*)Number) = GetShort(Header, GroupNum);//GetLittleUShort();
+		*Number = GetShort(Header, GroupNum);//GetLittleUShort();
 		return IL_TRUE;
 	}
 	if (VR1 == 'U' && VR2 == 'L') {  // Unsigned long
-		ValLen = GetInt(Header, GroupNum);//GetLittleUInt();
+		ValLen = GetShort(Header, GroupNum);
 		if (ValLen != 4)  // Must always be 4 for long ('UL')
 			return IL_FALSE;
 		*Number = GetInt(Header, GroupNum);
@@ -399,14 +403,23 @@ ILboolean GetNumericValue(DICOMHEAD *Header, ILushort GroupNum, ILuint *Number)
 		ValLen = GetShort(Header, GroupNum);
 		if (ValLen != 2)  // Must always be 2 for short ('US')
 			return IL_FALSE;
-		*((ILshort*)Number) = GetShort(Header, GroupNum);
+		*Number = GetShort(Header, GroupNum);
 		return IL_TRUE;
 	}
 	if (VR1 == 'S' && VR2 == 'L') {  // Signed long
-		ValLen = GetInt(Header, GroupNum);
+		ValLen = GetShort(Header, GroupNum);
 		if (ValLen != 4)  // Must always be 4 for long ('UL')
 			return IL_FALSE;
-		*((ILint*)Number) = GetInt(Header, GroupNum);
+		*Number = GetInt(Header, GroupNum);
+		return IL_TRUE;
+	}
+	if (VR1 == 'I' && VR2 == 'S') {  // Integer as a string (the number of frames)
+		char Value[13];
+		ValLen = GetShort(Header, GroupNum);
+		if (ValLen > 12 || iread(Value, 1, ValLen) != ValLen)
+			return IL_FALSE;
+		Value[ValLen] = 0;
+		*Number = atoi(Value);
 		return IL_TRUE;
 	}
 
@@ -521,8 +534,10 @@ ILboolean iLoadDicomInternal(void)
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-	if (!iCheckDicom(&Header))
+	if (!iCheckDicom(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	if (!ilTexImage(Header.Width, Header.Height, Header.Depth, ilGetBppFormat(Header.Format), Header.Format, Header.Type, NULL))
 		return IL_FALSE;
@@ -553,12 +568,12 @@ ILboolean iLoadDicomInternal(void)
 			}
 #endif
 
+	if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
+		return IL_FALSE;
+
 	switch (Header.Type)
 	{
 		case IL_UNSIGNED_BYTE:
-			if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
-				return IL_FALSE;
-
 			// Swizzle the data from ABGR to RGBA.
 			if (Swizzle) {
 				for (i = 0; i < iCurImage->SizeOfData; i += 4) {
@@ -569,7 +584,10 @@ ILboolean iLoadDicomInternal(void)
 
 		case IL_UNSIGNED_SHORT:
 			for (i = 0; i < iCurImage->SizeOfData; i += 2) {
-				*((ILushort*)(iCurImage->Data + i)) = GetShort(&Header, 0);//GetLittleUShort();
+				if (Header.BigEndian)
+					BigUShort((ILushort*)(iCurImage->Data + i));
+				else
+					UShort((ILushort*)(iCurImage->Data + i));
 			}
 
 			// Swizzle the data from ABGR to RGBA.
@@ -585,7 +603,10 @@ ILboolean iLoadDicomInternal(void)
 
 		case IL_FLOAT:
 			for (i = 0; i < iCurImage->SizeOfData; i += 4) {
-				*((ILfloat*)(iCurImage->Data + i)) = GetFloat(&Header, 0);//GetLittleFloat();
+				if (Header.BigEndian)
+					BigFloat((ILfloat*)(iCurImage->Data + i));
+				else
+					Float((ILfloat*)(iCurImage->Data + i));
 			}
 
 			// Swizzle the data from ABGR to RGBA.
-- 
2.43.0


From 04fed9afa803a804b8e6afbe399cab1ca157c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 122/161] fix: read Maya IFF tiles in the right channel order
 and stop at the end of damaged files

---
 DevIL/src-IL/src/il_iff.cpp | 93 +++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 34 deletions(-)

diff --git a/DevIL/src-IL/src/il_iff.cpp b/DevIL/src-IL/src/il_iff.cpp
index c7ade04..14fc3ee 100755
--- a/DevIL/src-IL/src/il_iff.cpp
+++ b/DevIL/src-IL/src/il_iff.cpp
@@ -83,9 +83,16 @@ ILboolean ilLoadIffF(ILHANDLE File)
 	ILuint		FirstPos;
 	ILboolean	bRet;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	iSetInputFile(File);
 	FirstPos = itell();
+	iQuietErrors(IL_TRUE);  // It can still be a Lbm.
 	bRet = iLoadIffInternal();
+	iQuietErrors(IL_FALSE);
 	iseek(FirstPos, IL_SEEK_SET);
 
 	// Lbm files can have the .iff extension as well, so if Iff-loading failed,
@@ -103,9 +110,16 @@ ILboolean ilLoadIffL(const void *Lump, ILuint Size)
 	ILuint		FirstPos;
 	ILboolean	bRet;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	iSetInputLump(Lump, Size);
 	FirstPos = itell();
+	iQuietErrors(IL_TRUE);  // It can still be a Lbm.
 	bRet = iLoadIffInternal();
+	iQuietErrors(IL_FALSE);
 	iseek(FirstPos, IL_SEEK_SET);
 
 	// Lbm files can have the .iff extension as well, so if Iff-loading failed,
@@ -151,6 +165,10 @@ ILboolean iLoadIffInternal(void)
 	*/
 	while (1) {
 
+		if (ieof()) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		chunkInfo = iff_begin_read_chunk();
 		
 		// -- Right now, the only info we need about the image is in TBHD
@@ -199,6 +217,10 @@ ILboolean iLoadIffInternal(void)
 		ILuint tileImage;
 		ILuint tileZ;
 	
+		if (ieof()) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		chunkInfo = iff_begin_read_chunk();
 
 		/*
@@ -225,10 +247,9 @@ ILboolean iLoadIffInternal(void)
 
 		// Read tiles
 		while ( (tileImage < tiles) || (tileZ < tiles)) {
-			char	 *tileData;
+			char	 *tileData = NULL;
 			ILushort x1, x2, y1, y2, tile_width, tile_height;
 			ILuint remainingDataSize;
-			ILushort	tile_area;
 			ILuint	tileCompressed;
 
 			chunkInfo = iff_begin_read_chunk();
@@ -239,12 +260,18 @@ ILboolean iLoadIffInternal(void)
 			x1 = GetBigUShort();	y1 = GetBigUShort();
 			x2 = GetBigUShort();	y2 = GetBigUShort();
 
+			// Every tile has to lie within the image.
+			if (chunkInfo.tag == IFF_TAG_RGBA && (chunkInfo.size < 4*sizeof(ILushort) ||
+				x2 < x1 || y2 < y1 || x2 >= width || y2 >= height)) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
+
 			remainingDataSize = chunkInfo.size - 4*sizeof(ILushort);
 			tile_width = x2 - x1 + 1;
 			tile_height = y2 - y1 + 1;
-			tile_area = tile_width * tile_height;
 
-			if ((ILint)remainingDataSize >= (tile_width * tile_height * bpp))
+			if (remainingDataSize >= (ILuint)tile_width * tile_height * bpp)
 				tileCompressed = 0;
 			else
 				tileCompressed = 1;
@@ -326,17 +353,19 @@ void iff_end_read_chunk()
 	int		part;
   
 	end = chunkStack[chunkDepth].start + chunkStack[chunkDepth].size + 8;
-    
-	if (chunkStack[chunkDepth].chunkType != 0) {
-		end += 4;
-	}
-	// Add padding 
-	part = end % 4;
-	if (part != 0) {
-	    end += 4 - part;   
+
+	if (end < chunkStack[chunkDepth].start || end > 0x7FFFFFF0) {
+		iseek(0, IL_SEEK_END);  // Cannot be there.
 	}
+	else {
+		// Add padding 
+		part = end % 4;
+		if (part != 0) {
+		    end += 4 - part;   
+		}
 
-	iseek(end, IL_SEEK_SET);
+		iseek(end, IL_SEEK_SET);
+	}
 
 	chunkDepth--;
 }
@@ -363,8 +392,7 @@ char *iffReadUncompressedTile(ILushort width, ILushort height, ILbyte depth)
 {
 
 	char	*data = NULL;
-	char	*iniPixel;
-	char	*finPixel;
+	char	aux;
 	int		i, j;
 	int		tam = width* height * depth * sizeof(char);
 
@@ -377,14 +405,12 @@ char *iffReadUncompressedTile(ILushort width, ILushort height, ILbyte depth)
 		return NULL;
 	}
 
-	iniPixel = data;
-	for (i = 0; i < tam / depth; i++) {
-		finPixel = iniPixel + depth;
-		for (j = 0; j < (depth /2); j++) {
-			char aux;
-			aux = *iniPixel; 
-			*(finPixel--) = *iniPixel;
-			*(iniPixel++) = aux;
+	// The channels of every pixel are in reverse order.
+	for (i = 0; i < tam; i += depth) {
+		for (j = 0; j < depth / 2; j++) {
+			aux = data[i + j];
+			data[i + j] = data[i + depth - 1 - j];
+			data[i + depth - 1 - j] = aux;
 		}
 	}
 	return data;
@@ -395,30 +421,25 @@ char *iff_decompress_tile_rle(ILushort width, ILushort height, ILushort depth,
 							  char *compressedData, ILuint compressedDataSize)
 {
 
-	char	*channels[4];
+	char	*channels[4] = { NULL, NULL, NULL, NULL };
 	char	*data;
 	int		i, k, row, column;
 	ILuint	compressedStart = 0;
 
-	// Decompress only in RGBA.
-	if (depth != 4) {
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return NULL;
-	}
-
 	for (i = depth-1; i >= 0; --i) {
 		channels[i] = iff_decompress_rle(width * height, compressedData, 
 				      compressedDataSize, &compressedStart);
-		if (channels[i] == NULL)
+		if (channels[i] == NULL) {
+			for (k = 0; k < 4; k++)
+				ifree(channels[k]);
 			return NULL;
+		}
 	}
 
     // Build all the channels from the decompression into an RGBA array.
 	data = (char*)ialloc(width * height * depth * sizeof(char));
-	if (data == NULL)
-		return NULL;
 
-	for (row = 0; row < height; row++)
+	for (row = 0; data != NULL && row < height; row++)
 		for (column = 0; column < width; column++)
 			for (k = 0; k < depth; k++)
 				data[depth*(row*width + column) + k] =
@@ -454,6 +475,8 @@ char *iff_decompress_rle(ILuint numBytes, char *compressedData,
 		if ((byteCount + count) > numBytes) break;
 		if (nextChar & 0x80) {
 			// Duplication run
+			if (*compressedStartIndex >= compressedDataSize)
+				break;
 			nextChar = compressedData[*compressedStartIndex];
 			(*compressedStartIndex)++;
 			// assert ((byteCount + count) <= numBytes);
@@ -463,6 +486,8 @@ char *iff_decompress_rle(ILuint numBytes, char *compressedData,
 			}
 		} else {
 			// Verbatim run
+			if (compressedDataSize - *compressedStartIndex < count)
+				break;
 			for (i = 0; i < count; i++) {
 				data[byteCount] = compressedData[*compressedStartIndex];
 				(*compressedStartIndex)++;
-- 
2.43.0


From c4be1e9fc5fee8d5c8d964c00f03b934357cb92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 123/161] fix: stop at damaged ID3 frames and accept version 4
 tags

---
 DevIL/src-IL/src/il_mp3.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_mp3.cpp b/DevIL/src-IL/src/il_mp3.cpp
index c7f0458..00f8f71 100755
--- a/DevIL/src-IL/src/il_mp3.cpp
+++ b/DevIL/src-IL/src/il_mp3.cpp
@@ -116,7 +116,7 @@ ILboolean iIsValidMp3(void)
 	if (!iGetMp3Head(&Header))
 		return IL_FALSE;
 	// The length of the header varies, so we just go back to the original position.
-	iseek(Pos, IL_SEEK_CUR);
+	iseek(Pos, IL_SEEK_SET);
 
 	return iCheckMp3(&Header);
 }
@@ -127,7 +127,7 @@ ILboolean iCheckMp3(MP3HEAD *Header)
 {
 	if (strncmp(Header->Signature, "ID3", 3))
 		return IL_FALSE;
-	if (Header->VersionMajor != 3 && Header->VersionMinor != 4)
+	if (Header->VersionMajor != 3 && Header->VersionMajor != 4)
 		return IL_FALSE;
 
 	return IL_TRUE;
@@ -165,7 +165,7 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 					break;
 			}
 			// The MimeType must be terminated by 0 in the file by the specs.
-			if (MimeType[i] != 0)
+			if (i == 65)
 				return MP3_NONE;
 			if (!strcmp((char*)MimeType, "image/jpeg"))
 				Type = MP3_JPG;
@@ -182,12 +182,13 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 				if (Description[i] == 0)
 					break;
 			}
-			if (Description[i] != 0)
+			if (i == 65)
 				return MP3_NONE;
 			return Type;
 		}
 		else {
-			iseek(FrameSize, IL_SEEK_CUR);
+			if (FrameSize > 0x7FFFFFFF || iseek(FrameSize, IL_SEEK_CUR))
+				return MP3_NONE;
 		}
 
 		//if (!strncmp(MimeType, "
@@ -252,8 +253,10 @@ ILboolean iLoadMp3Internal(void)
 
 	if (!iGetMp3Head(&Header))
 		return IL_FALSE;
-	if (!iCheckMp3(&Header))
+	if (!iCheckMp3(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 	Type = iFindMp3Pic(&Header);
 	
 	switch (Type)
-- 
2.43.0


From 8bb3cc0f102028e7f039137ff8a8940c9df03919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 124/161] fix: skip the header of TEXTURE files in memory

---
 DevIL/src-IL/src/il_texture.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_texture.cpp b/DevIL/src-IL/src/il_texture.cpp
index 27d0c7a..f36ac29 100644
--- a/DevIL/src-IL/src/il_texture.cpp
+++ b/DevIL/src-IL/src/il_texture.cpp
@@ -55,11 +55,13 @@ ILboolean ilLoadTextureF(ILHANDLE File)
 //! Reads from a memory "lump" that contains a TEXTURE
 ILboolean ilLoadTextureL(const void *Lump, ILuint Size)
 {
-	iSetInputLump(Lump, Size);
+	if (Size < 48) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 	// From http://forums.totalwar.org/vb/showthread.php?t=70886, all that needs to be done
 	//  is to strip out the first 48 bytes, and then it is DDS data.
-	iseek(48, IL_SEEK_CUR);
-	return ilLoadDdsL(Lump, Size);
+	return ilLoadDdsL((const ILubyte*)Lump + 48, Size - 48);
 }
 
 #endif//IL_NO_TEXTURE
-- 
2.43.0


From 700578fdde082ea85e9379613651a0a7445c9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 125/161] fix: read Photo CD pictures from their first byte

---
 DevIL/src-IL/src/il_pcd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_pcd.cpp b/DevIL/src-IL/src/il_pcd.cpp
index 3ce4202..e5e994a 100644
--- a/DevIL/src-IL/src/il_pcd.cpp
+++ b/DevIL/src-IL/src/il_pcd.cpp
@@ -119,7 +119,7 @@ ILboolean iLoadPcdInternal()
 	if (iread(&VertOrientation, 1, 1) != 1)
 		return IL_FALSE;
 
-	iseek(-72, IL_SEEK_CUR);  // Can't rewind
+	iseek(-73, IL_SEEK_CUR);  // Can't rewind
 
 	PicNum = iGetInt(IL_PCD_PICNUM);
 
@@ -159,6 +159,9 @@ ILboolean iLoadPcdInternal()
 	}
 
 	if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
+		ifree(Y1);
+		ifree(Y2);
+		ifree(CbCr);
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
-- 
2.43.0


From ab131a60d83c17825a6c81d54a15fac688367e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 126/161] fix: check the sizes and runs of Apple icons, and
 make those without a mask opaque

---
 DevIL/src-IL/src/il_icns.cpp | 73 +++++++++++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 14 deletions(-)

diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index 89cf47f..171277d 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -85,9 +85,11 @@ ILboolean ilIsValidIcnsL(const void *Lump, ILuint Size)
 ILboolean iIsValidIcns()
 {
 	ICNSHEAD	Header;
+	ILuint		Pos = itell();
 
-	iread(Header.Head, 1, 4);
-	iseek(-4, IL_SEEK_CUR);  // Go ahead and restore to previous state
+	if (iread(Header.Head, 1, 4) != 4)
+		return IL_FALSE;
+	iseek(Pos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	if (strncmp(Header.Head, "icns", 4))  // First 4 bytes have to be 'icns'.
 		return IL_FALSE;
@@ -145,7 +147,7 @@ ILboolean iLoadIcnsInternal()
 	ICNSDATA	Entry;
 	ILimage		*Image = NULL;
 	ILboolean	BaseCreated = IL_FALSE;
-
+	ILuint		Start = itell();
 
 	if (iCurImage == NULL)
 	{
@@ -153,16 +155,26 @@ ILboolean iLoadIcnsInternal()
 		return IL_FALSE;
 	}
 
-	iread(Header.Head, 4, 1);
+	if (iread(Header.Head, 4, 1) != 1)
+		return IL_FALSE;
 	Header.Size = GetBigInt();
 
 	if (strncmp(Header.Head, "icns", 4))  // First 4 bytes have to be 'icns'.
+	{
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
-	while ((ILint)itell() < Header.Size && !ieof())
+	while ((ILint)(itell() - Start) < Header.Size && !ieof())
 	{
-		iread(Entry.ID, 4, 1);
+		if (iread(Entry.ID, 4, 1) != 1)
+			goto icns_error;
 		Entry.Size = GetBigInt();
+		if (Entry.Size < 8)  // The size includes the identifier and the size itself.
+		{
+			ilSetError(IL_INVALID_FILE_HEADER);
+			goto icns_error;
+		}
 
 		if (!strncmp(Entry.ID, "it32", 4))  // 128x128 24-bit
 		{
@@ -218,10 +230,17 @@ ILboolean iLoadIcnsInternal()
 #endif//IL_NO_JP2
 		else  // Not a valid format or one that we can use
 		{
-			iseek(Entry.Size - 8, IL_SEEK_CUR);
+			if (iseek(Entry.Size - 8, IL_SEEK_CUR))
+				goto icns_error;
 		}
 	}
 
+	if (!BaseCreated)  // Nothing that we can use
+	{
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
+	}
+
 	return ilFixImage();
 
 icns_error:
@@ -230,7 +249,7 @@ icns_error:
 
 ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width, ICNSDATA *Entry, ILimage **Image)
 {
-	ILint		Position = 0, RLEPos = 0, Channel, i;
+	ILint		Position = 0, RLEPos = 0, Channel, i, DataSize = Entry->Size - 8;
 	ILubyte		RLERead, *Data = NULL;
 	ILimage		*TempImage = NULL;
 	ILboolean	ImageAlreadyExists = IL_FALSE;
@@ -252,15 +271,24 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 		}
 	}
 
-	Data = (ILubyte*)ialloc(Entry->Size - 8);
+	Data = (ILubyte*)ialloc(DataSize);
 	if (Data == NULL)
 		return IL_FALSE;
+	if (iread(Data, 1, DataSize) != (ILuint)DataSize)
+	{
+		ifree(Data);
+		return IL_FALSE;
+	}
 
 	if (!ImageAlreadyExists)
 	{
 		if (!*BaseCreated)  // Create base image
 		{
-			ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+			{
+				ifree(Data);
+				return IL_FALSE;
+			}
 			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 			*Image = iCurImage;
 			*BaseCreated = IL_TRUE;
@@ -268,20 +296,26 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 		else  // Create next image in list
 		{
 			(*Image)->Next = ilNewImage(Width, Width, 1, 4, 1);
+			if ((*Image)->Next == NULL)
+			{
+				ifree(Data);
+				return IL_FALSE;
+			}
 			*Image = (*Image)->Next;
 			(*Image)->Format = IL_RGBA;
 			(*Image)->Origin = IL_ORIGIN_UPPER_LEFT;
 		}
 
 		TempImage = *Image;
+		memset(TempImage->Data, 0xFF, TempImage->SizeOfData);  // Opaque if there is no mask
 	}
 
 	if (IsAlpha)  // Alpha is never compressed.
 	{
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
-		if (Entry->Size - 8 != Width * Width)
+		if (DataSize != Width * Width)
 		{
 			ifree(Data);
+			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
 
@@ -293,7 +327,6 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 	else if (Width == 256 || Width == 512)  // JPEG2000 encoded - uses JasPer
 	{
 #ifndef IL_NO_JP2
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
 		if (ilLoadJp2LInternal(Data, Entry->Size - 8, TempImage) == IL_FALSE)
 		{
 			ifree(Data);
@@ -301,13 +334,13 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 			return IL_TRUE;
 		}
 #else  // Cannot handle this size.
+		ifree(Data);
 		ilSetError(IL_LIB_JP2_ERROR);  //@TODO: Handle this better...just skip the data.
 		return IL_FALSE;
 #endif//IL_NO_JP2
 	}
 	else  // RGB data
 	{
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
 		if (Width == 128)
 			RLEPos += 4;  // There are an extra 4 bytes here of zeros.
 		//@TODO: Should we check to make sure they are all 0?
@@ -329,8 +362,20 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 				Position = 0;
 				while (Position < Width * Width)
 				{
+					if (RLEPos >= DataSize)
+					{
+						ifree(Data);
+						ilSetError(IL_INVALID_FILE_HEADER);
+						return IL_FALSE;
+					}
 					RLERead = Data[RLEPos];
 					RLEPos++;
+					if (RLEPos + (RLERead >= 128 ? 1 : RLERead + 1) > DataSize)
+					{
+						ifree(Data);
+						ilSetError(IL_INVALID_FILE_HEADER);
+						return IL_FALSE;
+					}
 
 					if (RLERead >= 128)
 					{
-- 
2.43.0


From ab588501b68488d5e43bf46557420d64a746693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:33 +0000
Subject: [PATCH 127/161] fix: IFF: clear what no tile covers

---
 DevIL/src-IL/src/il_iff.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_iff.cpp b/DevIL/src-IL/src/il_iff.cpp
index 14fc3ee..261c237 100755
--- a/DevIL/src-IL/src/il_iff.cpp
+++ b/DevIL/src-IL/src/il_iff.cpp
@@ -210,6 +210,8 @@ ILboolean iLoadIffInternal(void)
 		return IL_FALSE;
 
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	// Tiles need not cover the whole image
+	memset(iCurImage->Data, 0, iCurImage->SizeOfData);
 
 	tileImageDataFound = IL_FALSE;
 
-- 
2.43.0


From 78b7f8b88477b303330e69b82d8824135fbaca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 128/161] fix: ILUT OpenGL: uploading an image does not turn
 the image itself upside down

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index a904721..1900552 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -580,7 +580,16 @@ ILimage* MakeGLCompliant2D(ILimage *Src)
 	}
 
 	if (Dest->Origin != IL_ORIGIN_LOWER_LEFT) {
+		if (!Created) {  // The caller's image stays as it is.
+			Dest = ilCopyImage_(Src);
+			if (Dest == NULL)
+				return NULL;
+		}
 		Flipped = iGetFlipped(Dest);
+		if (Flipped == NULL) {
+			ilCloseImage(Dest);
+			return NULL;
+		}
 		ifree(Dest->Data);
 		Dest->Data = Flipped;
 		Dest->Origin = IL_ORIGIN_LOWER_LEFT;
@@ -666,7 +675,16 @@ ILimage* MakeGLCompliant3D(ILimage *Src)
 	}
 
 	if (Dest->Origin != IL_ORIGIN_LOWER_LEFT) {
+		if (!Created) {  // The caller's image stays as it is.
+			Dest = ilCopyImage_(Src);
+			if (Dest == NULL)
+				return NULL;
+		}
 		Flipped = iGetFlipped(Dest);
+		if (Flipped == NULL) {
+			ilCloseImage(Dest);
+			return NULL;
+		}
 		ifree(Dest->Data);
 		Dest->Data = Flipped;
 		Dest->Origin = IL_ORIGIN_LOWER_LEFT;
-- 
2.43.0


From 4474ac35f0b19ff945d29190c980661ba8f15dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 129/161] fix: ILUT OpenGL: double and half pixels are uploaded
 as floats

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index 1900552..dc57c01 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -536,6 +536,12 @@ ILimage* MakeGLCompliant2D(ILimage *Src)
 		// Set Dest's palette stuff here
 		Dest->Pal.PalType = IL_PAL_NONE;
 	}
+	else if (Src->Type == IL_DOUBLE || Src->Type == IL_HALF) {  // OpenGL takes floats only.
+		Dest = iConvertImage(Src, Src->Format, IL_FLOAT);
+		if (Dest == NULL)
+			return NULL;
+		Created = IL_TRUE;
+	}
 
 	if (HasNonPowerOfTwoHardware == IL_FALSE && 
 		  (Src->Width  != ilNextPower2(Src->Width)  ||
@@ -628,6 +634,12 @@ ILimage* MakeGLCompliant3D(ILimage *Src)
 		// Set Dest's palette stuff here
 		Dest->Pal.PalType = IL_PAL_NONE;
 	}
+	else if (Src->Type == IL_DOUBLE || Src->Type == IL_HALF) {  // OpenGL takes floats only.
+		Dest = iConvertImage(Src, Src->Format, IL_FLOAT);
+		if (Dest == NULL)
+			return NULL;
+		Created = IL_TRUE;
+	}
 
 	if (HasNonPowerOfTwoHardware == IL_FALSE && 
 		  (Src->Width  != ilNextPower2(Src->Width)  ||
-- 
2.43.0


From 0ba63f8c8219a488a785aab4ad6e035834cd1448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 130/161] fix: ILUT OpenGL: what a context offers is looked up
 for each context, glTexSubImage3D included

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index dc57c01..d436999 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -112,6 +112,14 @@ ILboolean ilutGLInit()
 	glPixelStorei(GL_UNPACK_SWAP_BYTES, GL_FALSE);
 	glPixelStorei(GL_PACK_ALIGNMENT, 1);
 
+	// This may be another context than the last time.
+#if defined(_WIN32) || defined(_WIN64) || defined(linux) || defined(__APPLE__)
+	ilGLTexImage3D = NULL;
+	ilGLTexSubImage3D = NULL;
+	ilGLCompressed2D = NULL;
+	ilGLCompressed3D = NULL;
+#endif
+
 //#ifndef GL_VERSION_1_3
 	#if (defined (_WIN32) || defined(_WIN64))
 		if (IsExtensionSupported("GL_ARB_texture_compression") &&
@@ -120,7 +128,7 @@ ILboolean ilutGLInit()
 		}
 		if (IsExtensionSupported("GL_EXT_texture3D")) {
 			ilGLTexImage3D = (ILGLTEXIMAGE3DARBPROC)wglGetProcAddress("glTexImage3D");
-			ilGLTexImage3D = (ILGLTEXIMAGE3DARBPROC)wglGetProcAddress("glTexSubImage3D");
+			ilGLTexSubImage3D = (ILGLTEXSUBIMAGE3DARBPROC)wglGetProcAddress("glTexSubImage3D");
 		}
 		if (IsExtensionSupported("GL_ARB_texture_compression") &&
 			IsExtensionSupported("GL_EXT_texture_compression_s3tc") &&
@@ -135,6 +143,7 @@ ILboolean ilutGLInit()
 		}
 		if (IsExtensionSupported("GL_EXT_texture3D")) {
 			ilGLTexImage3D = (ILGLTEXIMAGE3DARBPROC)glXGetProcAddressARB((const GLubyte*)"glTexImage3D");
+			ilGLTexSubImage3D = (ILGLTEXSUBIMAGE3DARBPROC)glXGetProcAddressARB((const GLubyte*)"glTexSubImage3D");
 		}
 		if (IsExtensionSupported("GL_ARB_texture_compression") &&
 			IsExtensionSupported("GL_EXT_texture_compression_s3tc") &&
@@ -145,6 +154,7 @@ ILboolean ilutGLInit()
 		// Mac OS X headers are OpenGL 1.4 compliant already.
 		ilGLCompressed2D = glCompressedTexImage2DARB;//(ILGLCOMPRESSEDTEXIMAGE2DARBPROC)aglGetProcAddress((const GLubyte *)"glCompressedTexImage2DARB");
 		ilGLTexImage3D = glTexImage3D;
+		ilGLTexSubImage3D = glTexSubImage3D;
 		ilGLCompressed3D = glCompressedTexImage3DARB;
 	#else
 		return IL_FALSE;  // @TODO: Find any other systems that we could be on.
@@ -166,10 +176,8 @@ ILboolean ilutGLInit()
 	ilutSetInteger(ILUT_MAXTEX_HEIGHT, MaxTexH);
 	ilutSetInteger(ILUT_MAXTEX_DEPTH, MaxTexD);
 
-	if (IsExtensionSupported("GL_ARB_texture_cube_map"))
-		HasCubemapHardware = IL_TRUE;
-	if (IsExtensionSupported("GL_ARB_texture_non_power_of_two"))
-		HasNonPowerOfTwoHardware = IL_TRUE;
+	HasCubemapHardware = IsExtensionSupported("GL_ARB_texture_cube_map");
+	HasNonPowerOfTwoHardware = IsExtensionSupported("GL_ARB_texture_non_power_of_two");
 	
 	return IL_TRUE;
 }
-- 
2.43.0


From 9ae6573b41b4ec99e62d910ad4a4e50ecaa2a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 131/161] fix: ILUT OpenGL: all faces of a cube map are
 uploaded

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index d436999..b02f50e 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -354,6 +354,10 @@ ILboolean ILAPIENTRY ilutGLTexImage(GLuint Level)
 	ILimage *Temp;
 
 	ilutCurImage = ilGetCurImage();
+	if (ilutCurImage == NULL) {
+		ilSetError(ILUT_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	if (!ilutGetBoolean(ILUT_GL_AUTODETECT_TEXTURE_TARGET))
 		return ilutGLTexImage_(Level, GL_TEXTURE_2D, ilGetCurImage());
@@ -364,10 +368,11 @@ ILboolean ILAPIENTRY ilutGLTexImage(GLuint Level)
 		if (ilutCurImage->CubeFlags != 0 && HasCubemapHardware) { //bind to cubemap
 			Temp = ilutCurImage;
 			while (Temp != NULL && Temp->CubeFlags != 0) {
-				ilutGLTexImage_(Level, iToGLCube(Temp->CubeFlags), Temp);
-				Temp = Temp->Next;
+				if (!ilutGLTexImage_(Level, iToGLCube(Temp->CubeFlags), Temp))
+					return IL_FALSE;
+				Temp = Temp->Faces;
 			}
-			return IL_TRUE; //@TODO: check for errors??
+			return IL_TRUE;
 		}
 		else  // 2D texture
 			return ilutGLTexImage_(Level, GL_TEXTURE_2D, ilGetCurImage());
-- 
2.43.0


From 546748a049b002a16a292e4db67c7b6fedac564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 132/161] fix: ILUT OpenGL: sub-texture offsets cannot wrap
 around, and a refusal releases its copy

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index b02f50e..b08fd7b 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -437,7 +437,7 @@ ILboolean ILAPIENTRY ilutGLSubTex(GLuint TexID, ILuint XOff, ILuint YOff)
 ILboolean ILAPIENTRY ilutGLSubTex2D(GLuint TexID, ILuint XOff, ILuint YOff)
 {
 	ILimage	*Image;
-	ILint Width, Height;
+	ILint Width = 0, Height = 0;
 
 	ilutCurImage = ilGetCurImage();
 	if (ilutCurImage == NULL) {
@@ -454,7 +454,10 @@ ILboolean ILAPIENTRY ilutGLSubTex2D(GLuint TexID, ILuint XOff, ILuint YOff)
 	glGetTexLevelParameteriv(GL_TEXTURE_2D, 0, GL_TEXTURE_WIDTH,  (GLint*)&Width);
 	glGetTexLevelParameteriv(GL_TEXTURE_2D, 0, GL_TEXTURE_HEIGHT, (GLint*)&Height);
 
-	if (Image->Width + XOff > (ILuint)Width || Image->Height + YOff > (ILuint)Height) {
+	if (Width < 0 || Height < 0 || Image->Width > (ILuint)Width || XOff > (ILuint)Width - Image->Width
+		|| Image->Height > (ILuint)Height || YOff > (ILuint)Height - Image->Height) {
+		if (Image != ilutCurImage)
+			ilCloseImage(Image);
 		ilSetError(ILUT_BAD_DIMENSIONS);
 		return IL_FALSE;
 	}
@@ -477,7 +480,7 @@ ILboolean ILAPIENTRY ilutGLSubTex2D(GLuint TexID, ILuint XOff, ILuint YOff)
 ILboolean ILAPIENTRY ilutGLSubTex3D(GLuint TexID, ILuint XOff, ILuint YOff, ILuint ZOff)
 {
 	ILimage	*Image;
-	ILint Width, Height, Depth;
+	ILint Width = 0, Height = 0, Depth = 0;
 
 	if (ilGLTexSubImage3D == NULL) {
 		ilSetError(ILUT_ILLEGAL_OPERATION);  // Set a different error?
@@ -500,8 +503,11 @@ ILboolean ILAPIENTRY ilutGLSubTex3D(GLuint TexID, ILuint XOff, ILuint YOff, ILui
 	glGetTexLevelParameteriv(ILGL_TEXTURE_3D, 0, GL_TEXTURE_HEIGHT, (GLint*)&Height);
 	glGetTexLevelParameteriv(ILGL_TEXTURE_3D, 0, ILGL_TEXTURE_DEPTH, (GLint*)&Depth);
 
-	if (Image->Width + XOff > (ILuint)Width || Image->Height + YOff > (ILuint)Height
-		|| Image->Depth + ZOff > (ILuint)Depth) {
+	if (Width < 0 || Height < 0 || Depth < 0 || Image->Width > (ILuint)Width || XOff > (ILuint)Width - Image->Width
+		|| Image->Height > (ILuint)Height || YOff > (ILuint)Height - Image->Height
+		|| Image->Depth > (ILuint)Depth || ZOff > (ILuint)Depth - Image->Depth) {
+		if (Image != ilutCurImage)
+			ilCloseImage(Image);
 		ilSetError(ILUT_BAD_DIMENSIONS);
 		return IL_FALSE;
 	}
-- 
2.43.0


From 25d6593d2e7d0777955169e9fc59deb343d2d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 133/161] fix: ILUT OpenGL: reading a texture back uses the
 current image and refuses textures that do not exist

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index b08fd7b..154e9e4 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -855,14 +855,25 @@ ILboolean ILAPIENTRY ilutGLSetTex(GLuint TexID)
 ILboolean ILAPIENTRY ilutGLSetTex2D(GLuint TexID)
 {
 	ILubyte *Data;
-	ILuint Width, Height;
+	ILuint Width = 0, Height = 0;
+
+	ilutCurImage = ilGetCurImage();
+	if (ilutCurImage == NULL) {
+		ilSetError(ILUT_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	glBindTexture(GL_TEXTURE_2D, TexID);
 
 	glGetTexLevelParameteriv(GL_TEXTURE_2D, 0, GL_TEXTURE_WIDTH,  (GLint*)&Width);
 	glGetTexLevelParameteriv(GL_TEXTURE_2D, 0, GL_TEXTURE_HEIGHT, (GLint*)&Height);
 
-	Data = (ILubyte*)ialloc(Width * Height * 4);
+	if (Width == 0 || Height == 0) {  // No such texture
+		ilSetError(ILUT_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	Data = (ILubyte*)ialloc((ILsizei)Width * Height * 4);
 	if (Data == NULL) {
 		return IL_FALSE;
 	}
@@ -883,20 +894,31 @@ ILboolean ILAPIENTRY ilutGLSetTex2D(GLuint TexID)
 ILboolean ILAPIENTRY ilutGLSetTex3D(GLuint TexID)
 {
 	ILubyte *Data;
-	ILuint Width, Height, Depth;
+	ILuint Width = 0, Height = 0, Depth = 0;
 
 	if (ilGLTexImage3D == NULL) {
 		ilSetError(ILUT_ILLEGAL_OPERATION);  // Set a different error?
 		return IL_FALSE;
 	}
 
+	ilutCurImage = ilGetCurImage();
+	if (ilutCurImage == NULL) {
+		ilSetError(ILUT_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	glBindTexture(ILGL_TEXTURE_3D, TexID);
 
 	glGetTexLevelParameteriv(ILGL_TEXTURE_3D, 0, GL_TEXTURE_WIDTH,  (GLint*)&Width);
 	glGetTexLevelParameteriv(ILGL_TEXTURE_3D, 0, GL_TEXTURE_HEIGHT, (GLint*)&Height);
 	glGetTexLevelParameteriv(ILGL_TEXTURE_3D, 0, ILGL_TEXTURE_DEPTH, (GLint*)&Depth);
 
-	Data = (ILubyte*)ialloc(Width * Height * Depth * 4);
+	if (Width == 0 || Height == 0 || Depth == 0) {  // No such texture
+		ilSetError(ILUT_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	Data = (ILubyte*)ialloc((ILsizei)Width * Height * Depth * 4);
 	if (Data == NULL) {
 		return IL_FALSE;
 	}
-- 
2.43.0


From a9afeb4ed076b1a4e0d54fcd2d70f3dc51ad1d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 134/161] fix: ILUT OpenGL: ilutGLSaveImage and ilutGLScreenie
 keep the selection; screen127.tga is used, and a failed save reported

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index 154e9e4..7019029 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -752,19 +752,23 @@ GLuint ILAPIENTRY ilutGLLoadImage(ILstring FileName)
 ILboolean ILAPIENTRY ilutGLSaveImage(ILstring FileName, GLuint TexID)
 {
 	ILuint		CurName;
+	ILimage		*CurImage;
 	ILboolean	Saved;
 	
 	CurName = ilGetCurName();
+	CurImage = ilGetCurImage();
 
 	iBindImageTemp();
 
 	if (!ilutGLSetTex(TexID)) {
 		ilBindImage(CurName);
+		ilSetCurImage(CurImage);
 		return IL_FALSE;
 	}
 
 	Saved = ilSaveImage(FileName);
 	ilBindImage(CurName);
+	ilSetCurImage(CurImage);  // May be a sub-image.
 
 	return Saved;
 }
@@ -774,7 +778,7 @@ ILboolean ILAPIENTRY ilutGLSaveImage(ILstring FileName, GLuint TexID)
 //! Takes a screenshot of the current OpenGL window.
 ILboolean ILAPIENTRY ilutGLScreen()
 {
-	ILuint	ViewPort[4];
+	ILuint	ViewPort[4] = { 0, 0, 0, 0 };
 
 	ilutCurImage = ilGetCurImage();
 	if (ilutCurImage == NULL) {
@@ -801,9 +805,11 @@ ILboolean ILAPIENTRY ilutGLScreenie()
 	FILE		*File;
 	ILchar		Buff[255];
 	ILuint		i, CurName;
+	ILimage		*CurImage;
 	ILboolean	ReturnVal = IL_TRUE;
 
 	CurName = ilGetCurName();
+	CurImage = ilGetCurImage();
 
 	// Could go above 128 easily...
 	for (i = 0; i < 128; i++) {
@@ -825,7 +831,7 @@ ILboolean ILAPIENTRY ilutGLScreenie()
 		fclose(File);
 	}
 
-	if (i == 127) {
+	if (i == 128) {
 		ilSetError(ILUT_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
@@ -836,9 +842,10 @@ ILboolean ILAPIENTRY ilutGLScreenie()
 	}
 
 	if (ReturnVal)
-		ilSave(IL_TGA, Buff);
+		ReturnVal = ilSave(IL_TGA, Buff);
 
 	ilBindImage(CurName);
+	ilSetCurImage(CurImage);  // May be a sub-image.
 
 	return ReturnVal;
 }
-- 
2.43.0


From df2025a9e7a35abb8f8f34fa9838df181426986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 135/161] fix: ILUT OpenGL: a failure of gluBuild2DMipmaps is
 reported

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index 7019029..22919a1 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -407,6 +407,7 @@ GLuint ILAPIENTRY ilutGLBindMipmaps()
 ILboolean ILAPIENTRY ilutGLBuildMipmaps()
 {
 	ILimage	*Image;
+	GLint	Result;
 
 	ilutCurImage = ilGetCurImage();
 	if (ilutCurImage == NULL) {
@@ -418,11 +419,16 @@ ILboolean ILAPIENTRY ilutGLBuildMipmaps()
 	if (Image == NULL)
 		return IL_FALSE;
 
-	gluBuild2DMipmaps(GL_TEXTURE_2D, ilutGLFormat(Image->Format, Image->Bpp), Image->Width,
+	Result = gluBuild2DMipmaps(GL_TEXTURE_2D, ilutGLFormat(Image->Format, Image->Bpp), Image->Width,
 						Image->Height, Image->Format, Image->Type, Image->Data);
 
 	if (Image != ilutCurImage)
 		ilCloseImage(Image);
+
+	if (Result != 0) {
+		ilSetError(ILUT_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	
 	return IL_TRUE;
 }
-- 
2.43.0


From da654c13e355ec120a0b6b661c20f09dc517a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 136/161] fix: ILUT OpenGL: alpha images become alpha textures
 whatever ILUT_OPENGL_CONV

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index 22919a1..6466946 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -963,9 +963,7 @@ ILenum ilutGLFormat(ILenum Format, ILubyte Bpp)
 		}
 	}
 	else if (Format == IL_ALPHA) {
-		if (ilutIsEnabled(ILUT_OPENGL_CONV)) {
-			return GL_ALPHA;
-		}
+		return GL_ALPHA;  // One component would be luminance.
 	}
 
 	return Bpp;
-- 
2.43.0


From 1c1bfda5bb61ae509321a34c6f0d8b6db0766c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:56 +0000
Subject: [PATCH 137/161] fix: ILUT OpenGL: textures stay powers of two
 whatever the size limit and the depth

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index 6466946..1920fca 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -533,6 +533,19 @@ ILboolean ILAPIENTRY ilutGLSubTex3D(GLuint TexID, ILuint XOff, ILuint YOff, ILui
 }
 
 
+// The largest size a texture may have in one direction
+static ILint iMaxTexSize(ILenum Limit)
+{
+	ILint Max = ilutGetInteger(Limit);
+
+	if (HasNonPowerOfTwoHardware == IL_FALSE) {
+		while ((Max & (Max - 1)) != 0)
+			Max &= Max - 1;
+	}
+	return Max;
+}
+
+
 ILimage* MakeGLCompliant2D(ILimage *Src)
 {
 	ILimage		*Dest = Src, *Temp;
@@ -542,8 +555,8 @@ ILimage* MakeGLCompliant2D(ILimage *Src)
 	ILboolean   need_resize = IL_FALSE;
 	ILint		MaxTexW, MaxTexH;
 
-	MaxTexW = ilutGetInteger(ILUT_MAXTEX_WIDTH);
-	MaxTexH = ilutGetInteger(ILUT_MAXTEX_HEIGHT);
+	MaxTexW = iMaxTexSize(ILUT_MAXTEX_WIDTH);
+	MaxTexH = iMaxTexSize(ILUT_MAXTEX_HEIGHT);
 	
 	if (Src->Pal.Palette != NULL && Src->Pal.PalSize != 0 && Src->Pal.PalType != IL_PAL_NONE) {
 		//ilSetCurImage(Src);
@@ -639,9 +652,9 @@ ILimage* MakeGLCompliant3D(ILimage *Src)
 	ILboolean   need_resize = IL_FALSE;
 	ILint		MaxTexW, MaxTexH, MaxTexD;
 
-	MaxTexW = ilutGetInteger(ILUT_MAXTEX_WIDTH);
-	MaxTexH = ilutGetInteger(ILUT_MAXTEX_HEIGHT);
-	MaxTexD = ilutGetInteger(ILUT_MAXTEX_DEPTH);
+	MaxTexW = iMaxTexSize(ILUT_MAXTEX_WIDTH);
+	MaxTexH = iMaxTexSize(ILUT_MAXTEX_HEIGHT);
+	MaxTexD = iMaxTexSize(ILUT_MAXTEX_DEPTH);
 
 	if (Src->Pal.Palette != NULL && Src->Pal.PalSize != 0 && Src->Pal.PalType != IL_PAL_NONE) {
 		//ilSetCurImage(Src);
@@ -692,7 +705,7 @@ ILimage* MakeGLCompliant3D(ILimage *Src)
 				iluScale_(Dest, min((ILuint)MaxTexW, Dest->Width), min((ILuint)MaxTexH, Dest->Height), min((ILuint)MaxTexD, Dest->Depth))
 			  : iluScale_(Dest, min((ILuint)MaxTexW, ilNextPower2(Dest->Width)),
 			  		min((ILuint)MaxTexH, ilNextPower2(Dest->Height)),
-					min((ILuint)MaxTexD, ilNextPower2(Dest->Height)));
+					min((ILuint)MaxTexD, ilNextPower2(Dest->Depth)));
 			iluImageParameter(ILU_FILTER, Filter);
 		} else {
 			iluImageParameter(ILU_FILTER, ILU_BILINEAR);
-- 
2.43.0


From 705b62b6560669bc5b09bd5d13cf8cbb4e7f670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 138/161] fix: ILUT OpenGL: compressed uploads only in sizes
 and formats OpenGL takes

---
 DevIL/src-ILUT/src/ilut_opengl.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILUT/src/ilut_opengl.cpp b/DevIL/src-ILUT/src/ilut_opengl.cpp
index 1920fca..f6b2a6c 100644
--- a/DevIL/src-ILUT/src/ilut_opengl.cpp
+++ b/DevIL/src-ILUT/src/ilut_opengl.cpp
@@ -236,6 +236,7 @@ ILuint GLGetDXTCNum(ILenum DXTCFormat)
 	{
 		// Constants from glext.h.
 		case IL_DXT1:
+		case IL_DXT1A:
 			DXTCFormat = 0x83F1;
 			break;
 		case IL_DXT3:
@@ -244,6 +245,8 @@ ILuint GLGetDXTCNum(ILenum DXTCFormat)
 		case IL_DXT5:
 			DXTCFormat = 0x83F3;
 			break;
+		default:  // OpenGL has no equivalent.
+			DXTCFormat = 0;
 	}
 
 	return DXTCFormat;
@@ -268,15 +271,19 @@ ILboolean ILAPIENTRY ilutGLTexImage_(GLuint Level, GLuint Target, ILimage *Image
 	OldImage = ilGetCurImage();
 
 #if defined (_MSC_VER) || defined (linux) || defined(__APPLE__)
-	if (ilutGetBoolean(ILUT_GL_USE_S3TC) && ilGLCompressed2D != NULL) {
-		if (Image->DxtcData != NULL && Image->DxtcSize != 0) {
+	// Compressed data can only be used as it is.
+	if (ilutGetBoolean(ILUT_GL_USE_S3TC) && ilGLCompressed2D != NULL && Image->Depth == 1
+		&& Image->Width <= (ILuint)ilutGetInteger(ILUT_MAXTEX_WIDTH) && Image->Height <= (ILuint)ilutGetInteger(ILUT_MAXTEX_HEIGHT)
+		&& (HasNonPowerOfTwoHardware
+			|| (Image->Width == ilNextPower2(Image->Width) && Image->Height == ilNextPower2(Image->Height)))) {
+		if (Image->DxtcData != NULL && Image->DxtcSize != 0 && GLGetDXTCNum(Image->DxtcFormat) != 0) {
 			DXTCFormat = GLGetDXTCNum(Image->DxtcFormat);
 			ilGLCompressed2D(Target, Level, DXTCFormat, Image->Width,
 				Image->Height, 0, Image->DxtcSize, Image->DxtcData);
 			return IL_TRUE;
 		}
 
-		if (ilutGetBoolean(ILUT_GL_GEN_S3TC)) {
+		if (ilutGetBoolean(ILUT_GL_GEN_S3TC) && GLGetDXTCNum(ilutGetInteger(ILUT_S3TC_FORMAT)) != 0) {
 			DXTCFormat = ilutGetInteger(ILUT_S3TC_FORMAT);
 
 			ilSetCurImage(Image);
-- 
2.43.0


From c36d9760593ede574f755ef8160d31e255f36648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 139/161] fix: ilSetAlpha on alpha-only, 32-bit integer and
 half images

---
 DevIL/src-IL/src/il_manip.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 0d6a8ff..9f2c96a 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -753,6 +753,7 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 			break;
 		case IL_ALPHA:
 			AlphaOff = 1;
+			break;
 		case IL_COLOUR_INDEX: //@TODO use palette with alpha
 			ret = ilConvertImage(IL_RGBA, Image->Type);
 			AlphaOff = 4;
@@ -782,11 +783,20 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 		}
 		case IL_INT:
 		case IL_UNSIGNED_INT: {
-			const ILushort alpha = (ILushort)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
+			const ILuint alpha = (ILuint)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
 			for (i = AlphaOff-1; i < Size; i += AlphaOff)
 				((ILuint*)Image->Data)[i] = alpha;
 			break;
 		}
+		case IL_HALF: {
+			const ILfloat value = (ILfloat)AlphaValue;
+			ILuint bits;
+			memcpy(&bits, &value, sizeof(bits));
+			const ILushort alpha = ilFloatToHalf(bits);
+			for (i = AlphaOff-1; i < Size; i += AlphaOff)
+				((ILushort*)Image->Data)[i] = alpha;
+			break;
+		}
 		case IL_FLOAT: {
 			const ILfloat alpha = (ILfloat)AlphaValue;
 			for (i = AlphaOff-1; i < Size; i += AlphaOff)
-- 
2.43.0


From 24e6a0e0654c1fa2d6ba8b80e359413b4b047171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 140/161] fix: ilModAlpha limits its value to [0, 1] and sets
 it in half images too

---
 DevIL/src-IL/src/il_manip.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 9f2c96a..101c0dc 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -834,6 +834,8 @@ void ILAPIENTRY ilModAlpha(ILdouble AlphaValue)
         return;
     }
     
+    AlphaValue = IL_CLAMP(AlphaValue);
+
     switch (iCurImage->Format)
 	{
             case IL_RGB:
@@ -878,6 +880,13 @@ void ILAPIENTRY ilModAlpha(ILdouble AlphaValue)
             for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
                 ((ILuint*)iCurImage->Data)[i] = Alpha.alpha_int;
             break;
+        case IL_HALF:
+            Alpha.alpha_float = (ILfloat)AlphaValue;
+            memcpy(&Alpha.alpha_int, &Alpha.alpha_float, sizeof(Alpha.alpha_int));
+            Alpha.alpha_short = ilFloatToHalf(Alpha.alpha_int);
+            for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
+                ((ILushort*)iCurImage->Data)[i] = Alpha.alpha_short;
+            break;
         case IL_FLOAT:
             Alpha.alpha_float = (ILfloat)AlphaValue;
             for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
-- 
2.43.0


From 62126cad6ea51348cd736b2e97d1635f3ecf60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 141/161] fix: ilClampNTSC limits the colours of an indexed
 image, not its indices

---
 DevIL/src-IL/src/il_manip.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 101c0dc..6966145 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -921,6 +921,17 @@ ILboolean ILAPIENTRY ilClampNTSC(void)
 		return IL_FALSE;
 	}
 
+	if (iCurImage->Format == IL_COLOUR_INDEX) {  // The colours are in the palette.
+		ILuint PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
+		if (PalBpp == 0 || iCurImage->Pal.Palette == NULL)
+			return IL_TRUE;
+		for (Offset = 0; Offset + PalBpp <= iCurImage->Pal.PalSize; Offset += PalBpp) {
+			for (c = 0; c < 3; c++)
+				iCurImage->Pal.Palette[Offset + c] = IL_LIMIT(iCurImage->Pal.Palette[Offset + c], 16, 235);
+		}
+		return IL_TRUE;
+	}
+
 	for (z = 0; z < iCurImage->Depth; z++) {
 		for (y = 0; y < iCurImage->Height; y++) {
 			for (x = 0; x < iCurImage->Width; x++) {
-- 
2.43.0


From 93d4f50346d0852bb0a465de79294da6f216f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 142/161] fix: ilGetAlpha gives the alpha of an indexed image
 from its palette

---
 DevIL/src-IL/src/il_manip.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 6966145..02fafe6 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -633,7 +633,11 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		return NULL;
 	}
 
-	if (iCurImage->Type == Type) {
+	if (iCurImage->Format == IL_COLOUR_INDEX) {  // The alpha is in the palette.
+		TempImage = iConvertImage(iCurImage, IL_RGBA, Type);
+		if (TempImage == NULL)
+			return NULL;
+	} else if (iCurImage->Type == Type) {
 		TempImage = iCurImage;
 	} else {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, Type);
@@ -654,7 +658,6 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		case IL_RGB:
 		case IL_BGR:
 		case IL_LUMINANCE:
-		case IL_COLOUR_INDEX:  // @TODO: Make IL_COLOUR_INDEX separate.
 			memset(Alpha, 0xFF, Size / TempImage->Bpp * Bpc);
 			for (i = 0; i < Size / TempImage->Bpp; i++) {  // Opaque is 1.0 in these.
 				if (Type == IL_FLOAT)
-- 
2.43.0


From a077d154858071418533990a3f029c375a96c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 143/161] fix: TGA extension area has the 495 bytes of the
 specification, without a second date

---
 DevIL/src-IL/src/il_targa.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 2fe091a..eef56b3 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -786,9 +786,6 @@ ILboolean iSaveTargaInternal()
 	SaveLittleUShort((ILushort)Minute);
 	SaveLittleUShort((ILushort)Second);
 	
-	for (i = 0; i < 6; i++) {  // Time created
-		SaveLittleUShort(0);
-	}
 	for (i = 0; i < 41; i++) {	// Job name/ID
 		iputc(0);
 	}
-- 
2.43.0


From 41d861804a505cb6bf47e12c07e9473dcd07f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 144/161] fix: PNM text files keep their lines within 70
 characters and end with a newline

---
 DevIL/src-IL/src/il_pnm.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index ebafade..1bc828c 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -605,19 +605,22 @@ ILboolean iSavePnmInternal()
 			else  // IL_UNSIGNED_SHORT
 				k = ((ILushort*)TempData)[i];
 
-			if (Binary)
+			if (Binary) {
 				iputc((ILubyte)k);
-			else if (Type == IL_PBM_ASCII)
+				continue;
+			}
+			if (LinePos > 64) {  // The longest sample takes 6 characters.
+				ilprintf("\n");
+				LinePos = 0;
+			}
+			if (Type == IL_PBM_ASCII)
 				LinePos += ilprintf("%d ", k > 127 ? 0 : 1);  // 1 is black.
 			else
 				LinePos += ilprintf("%d ", k);
 		}
-
-		if (LinePos > 65) {  // Just a good number =]
-			ilprintf("\n");
-			LinePos = 0;
-		}
 	}
+	if (!Binary)
+		ilprintf("\n");
 
 	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT)
 		ifree(TempData);
-- 
2.43.0


From 07ebae2f90fe52706f02267fd9dd92bac2d15718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 145/161] fix: PSP loader keeps within its buffers, frees them,
 and terminates on damaged files

---
 DevIL/src-IL/src/il_psp.cpp | 179 ++++++++++++++++++++++++------------
 1 file changed, 118 insertions(+), 61 deletions(-)

diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index 1140df5..bafa726 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -13,6 +13,7 @@
 
 #include "il_internal.h"
 #include "il_psp.h"
+#include <limits.h>
 #ifndef IL_NO_PSP
 
 
@@ -171,9 +172,11 @@ ILboolean iLoadPspInternal()
 		return IL_FALSE;
 	}
 
+	NumChannels = 0;
 	Channels = NULL;
 	Alpha = NULL;
 	Pal.Palette = NULL;
+	Pal.PalSize = 0;
 
 	if (!iGetPspHead())
 		return IL_FALSE;
@@ -182,22 +185,32 @@ ILboolean iLoadPspInternal()
 		return IL_FALSE;
 	}
 
-	if (!ReadGenAttributes())
-		return IL_FALSE;
-	if (!ParseChunks())
-		return IL_FALSE;
-	if (!AssembleImage())
+	if (!ReadGenAttributes() || !ParseChunks() || !AssembleImage()) {
+		Cleanup();
 		return IL_FALSE;
+	}
 
 	Cleanup();
 	return ilFixImage();
 }
 
 
+// Skips what a chunk of Size bytes has after the Used bytes already read.
+static ILboolean SkipRest(ILuint Size, ILuint Used)
+{
+	if (Size <= Used)
+		return IL_TRUE;
+	if (Size - Used > INT_MAX) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	return iseek((ILint)(Size - Used), IL_SEEK_CUR) == 0;
+}
+
+
 ILboolean ReadGenAttributes()
 {
 	BLOCKHEAD		AttHead;
-	ILint			Padding;
 	ILuint			ChunkLen;
 
 	if (iread(&AttHead, sizeof(AttHead), 1) != 1)
@@ -216,15 +229,25 @@ ILboolean ReadGenAttributes()
 	}
 
 	ChunkLen = GetLittleUInt();
-	if (Header.MajorVersion != 3)
+	if (Header.MajorVersion != 3) {
+		if (ChunkLen < 4) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
+		}
 		ChunkLen -= 4;
+	}
+	memset(&AttChunk, 0, sizeof(AttChunk));
 	if (iread(&AttChunk, IL_MIN(sizeof(AttChunk), ChunkLen), 1) != 1)
 		return IL_FALSE;
 
 	// Can have new entries in newer versions of the spec (4.0).
-	Padding = (ChunkLen) - sizeof(AttChunk);
-	if (Padding > 0)
-		iseek(Padding, IL_SEEK_CUR);
+	if (!SkipRest(ChunkLen, sizeof(AttChunk)))
+		return IL_FALSE;
+
+	if (AttChunk.Width <= 0 || AttChunk.Height <= 0 || AttChunk.Width > INT_MAX / AttChunk.Height) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
 	// @TODO:  Anything but 24 not supported yet...
 	if (AttChunk.BitDepth != 24 && AttChunk.BitDepth != 8) {
@@ -273,17 +296,17 @@ ILboolean ParseChunks()
 		switch (Block.BlockID)
 		{
 			case PSP_LAYER_START_BLOCK:
-				if (!ReadLayerBlock(Block.BlockLen))
+				if (Channels == NULL && !ReadLayerBlock(Block.BlockLen))
 					return IL_FALSE;
 				break;
 
 			case PSP_ALPHA_BANK_BLOCK:
-				if (!ReadAlphaBlock(Block.BlockLen))
+				if (Alpha == NULL && !ReadAlphaBlock(Block.BlockLen))
 					return IL_FALSE;
 				break;
 
 			case PSP_COLOR_BLOCK:
-				if (!ReadPalette(Block.BlockLen))
+				if (Pal.Palette == NULL && !ReadPalette(Block.BlockLen))
 					return IL_FALSE;
 				break;
 
@@ -293,7 +316,12 @@ ILboolean ParseChunks()
 		}
 
 		// Skip to next block just in case we didn't read the entire block.
-		iseek(Pos + Block.BlockLen, IL_SEEK_SET);
+		if (Pos > INT_MAX || Block.BlockLen > INT_MAX - Pos) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
+		if (iseek(Pos + Block.BlockLen, IL_SEEK_SET) != 0)
+			return IL_FALSE;
 
 		// @TODO: Do stuff here.
 
@@ -308,7 +336,7 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 	BLOCKHEAD			Block;
 	LAYERINFO_CHUNK		LayerInfo;
 	LAYERBITMAP_CHUNK	Bitmap;
-	ILuint				ChunkSize, Padding, i, j;
+	ILuint				ChunkSize, i;
 	ILushort			NumChars;
 
 	BlockLen;
@@ -325,13 +353,15 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 		Block.HeadID[2] != 0x4B || Block.HeadID[3] != 0x00) {
 			return IL_FALSE;
 	}
+	UShort(&Block.BlockID);
 	if (Block.BlockID != PSP_LAYER_BLOCK)
 		return IL_FALSE;
 
 
 	if (Header.MajorVersion == 3) {
 		iseek(256, IL_SEEK_CUR);  // We don't care about the name of the layer.
-		iread(&LayerInfo, sizeof(LayerInfo), 1);
+		if (iread(&LayerInfo, sizeof(LayerInfo), 1) != 1)
+			return IL_FALSE;
 		if (iread(&Bitmap, sizeof(Bitmap), 1) != 1)
 			return IL_FALSE;
 	}
@@ -340,39 +370,43 @@ ILboolean ReadLayerBlock(ILuint BlockLen)
 		NumChars = GetLittleUShort();
 		iseek(NumChars, IL_SEEK_CUR);  // We don't care about the layer's name.
 
+		if (ChunkSize <= (ILuint)(2 + 4 + NumChars)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		ChunkSize -= (2 + 4 + NumChars);
 
 		if (iread(&LayerInfo, IL_MIN(sizeof(LayerInfo), ChunkSize), 1) != 1)
 			return IL_FALSE;
 
 		// Can have new entries in newer versions of the spec (5.0).
-		Padding = (ChunkSize) - sizeof(LayerInfo);
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (!SkipRest(ChunkSize, sizeof(LayerInfo)))
+			return IL_FALSE;
 
 		ChunkSize = GetLittleUInt();
 		if (iread(&Bitmap, sizeof(Bitmap), 1) != 1)
 			return IL_FALSE;
-		Padding = (ChunkSize - 4) - sizeof(Bitmap);
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (!SkipRest(ChunkSize, 4 + sizeof(Bitmap)))
+			return IL_FALSE;
 	}
+	UShort(&Bitmap.NumChannels);
 
+	if (Bitmap.NumChannels == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 
 	Channels = (ILubyte**)ialloc(sizeof(ILubyte*) * Bitmap.NumChannels);
 	if (Channels == NULL) {
 		return IL_FALSE;
 	}
 
-	NumChannels = Bitmap.NumChannels;
-
-	for (i = 0; i < NumChannels; i++) {
+	// NumChannels counts the channels that have been read.
+	for (i = 0; i < Bitmap.NumChannels; i++) {
 		Channels[i] = GetChannel();
-		if (Channels[i] == NULL) {
-			for (j = 0; j < i; j++)
-				ifree(Channels[j]);
+		if (Channels[i] == NULL)
 			return IL_FALSE;
-		}
+		NumChannels++;
 	}
 
 	return IL_TRUE;
@@ -385,7 +419,7 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 	ALPHAINFO_CHUNK	AlphaInfo;
 	ALPHA_CHUNK		AlphaChunk;
 	ILushort		NumAlpha, StringSize;
-	ILuint			ChunkSize, Padding;
+	ILuint			ChunkSize;
 
 	if (Header.MajorVersion == 3) {
 		NumAlpha = GetLittleUShort();
@@ -393,10 +427,11 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 	else {
 		ChunkSize = GetLittleUInt();
 		NumAlpha = GetLittleUShort();
-		Padding = (ChunkSize - 4 - 2);
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (!SkipRest(ChunkSize, 4 + 2))
+			return IL_FALSE;
 	}
+	if (NumAlpha == 0)
+		return IL_TRUE;
 
 	// Alpha channel header
 	if (iread(&Block, 1, sizeof(Block)) != sizeof(Block))
@@ -410,6 +445,7 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 		Block.HeadID[2] != 0x4B || Block.HeadID[3] != 0x00) {
 			return IL_FALSE;
 	}
+	UShort(&Block.BlockID);
 	if (Block.BlockID != PSP_ALPHA_CHANNEL_BLOCK)
 		return IL_FALSE;
 
@@ -420,20 +456,19 @@ ILboolean ReadAlphaBlock(ILuint BlockLen)
 		iseek(StringSize, IL_SEEK_CUR);
 		if (iread(&AlphaInfo, sizeof(AlphaInfo), 1) != 1)
 			return IL_FALSE;
-		Padding = (ChunkSize - 4 - 2 - StringSize - sizeof(AlphaInfo));
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (!SkipRest(ChunkSize, 4 + 2 + StringSize + sizeof(AlphaInfo)))
+			return IL_FALSE;
 
 		ChunkSize = GetLittleUInt();
 		if (iread(&AlphaChunk, sizeof(AlphaChunk), 1) != 1)
 			return IL_FALSE;
-		Padding = (ChunkSize - 4 - sizeof(AlphaChunk));
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (!SkipRest(ChunkSize, 4 + sizeof(AlphaChunk)))
+			return IL_FALSE;
 	}
 	else {
 		iseek(256, IL_SEEK_CUR);
-		iread(&AlphaInfo, sizeof(AlphaInfo), 1);
+		if (iread(&AlphaInfo, sizeof(AlphaInfo), 1) != 1)
+			return IL_FALSE;
 		if (iread(&AlphaChunk, sizeof(AlphaChunk), 1) != 1)
 			return IL_FALSE;
 	}
@@ -458,7 +493,7 @@ ILubyte *GetChannel()
 	BLOCKHEAD		Block;
 	CHANNEL_CHUNK	Channel;
 	ILubyte			*CompData, *Data;
-	ILuint			ChunkSize, Padding;
+	ILuint			ChunkSize;
 
 	if (iread(&Block, 1, sizeof(Block)) != sizeof(Block))
 		return NULL;
@@ -472,6 +507,7 @@ ILubyte *GetChannel()
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return NULL;
 	}
+	UShort(&Block.BlockID);
 	if (Block.BlockID != PSP_CHANNEL_BLOCK) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return NULL;
@@ -483,14 +519,18 @@ ILubyte *GetChannel()
 		if (iread(&Channel, sizeof(Channel), 1) != 1)
 			return NULL;
 
-		Padding = (ChunkSize - 4) - sizeof(Channel);
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (!SkipRest(ChunkSize, 4 + sizeof(Channel)))
+			return NULL;
 	}
 	else {
 		if (iread(&Channel, sizeof(Channel), 1) != 1)
 			return NULL;
 	}
+	UInt(&Channel.CompLen);
+	if (AttChunk.Compression == PSP_COMP_NONE && Channel.CompLen < (ILuint)(AttChunk.Width * AttChunk.Height)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return NULL;
+	}
 
 
 	CompData = (ILubyte*)ialloc(Channel.CompLen);
@@ -518,7 +558,8 @@ ILubyte *GetChannel()
 			if (!UncompRLE(CompData, Data, Channel.CompLen)) {
 				ifree(CompData);
 				ifree(Data);
-				return IL_FALSE;
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return NULL;
 			}
 			break;
 
@@ -538,7 +579,8 @@ ILubyte *GetChannel()
 ILboolean UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen)
 {
 	ILubyte	Run, Colour;
-	ILint	i, /*x, y,*/ Count/*, Total = 0*/;
+	ILuint	i, /*x, y,*/ Count/*, Total = 0*/;
+	ILuint	Size = AttChunk.Width * AttChunk.Height;
 
 	/*for (y = 0; y < AttChunk.Height; y++) {
 		for (x = 0, Count = 0; x < AttChunk.Width; ) {
@@ -570,16 +612,20 @@ ILboolean UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen)
 			return IL_FALSE;
 	}*/
 
-	for (i = 0, Count = 0; i < (ILint)CompLen; ) {
+	for (i = 0, Count = 0; i < CompLen && Count < Size; ) {
 		Run = *CompData++;
 		i++;
 		if (Run > 128) {
 			Run -= 128;
+			if (i >= CompLen || Run > Size - Count)
+				return IL_FALSE;
 			Colour = *CompData++;
 			i++;
 			memset(Data, Colour, Run);
 		}
 		else {
+			if (Run > CompLen - i || Run > Size - Count)
+				return IL_FALSE;
 			memcpy(Data, CompData, Run);
 			CompData += Run;
 			i += Run;
@@ -588,24 +634,27 @@ ILboolean UncompRLE(ILubyte *CompData, ILubyte *Data, ILuint CompLen)
 		Count += Run;
 	}
 
-	return IL_TRUE;
+	return Count == Size;  // All of the channel has to be there.
 }
 
 
 ILboolean ReadPalette(ILuint BlockLen)
 {
-	ILuint ChunkSize, PalCount, Padding;
+	ILuint ChunkSize, PalCount;
 
 	if (Header.MajorVersion >= 4) {
 		ChunkSize = GetLittleUInt();
 		PalCount = GetLittleUInt();
-		Padding = (ChunkSize - 4 - 4);
-		if (Padding > 0)
-			iseek(Padding, IL_SEEK_CUR);
+		if (!SkipRest(ChunkSize, 4 + 4))
+			return IL_FALSE;
 	}
 	else {
 		PalCount = GetLittleUInt();
 	}
+	if (PalCount == 0 || PalCount > 256) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 
 	Pal.PalSize = PalCount * 4;
 	Pal.PalType = IL_PAL_BGRA32;
@@ -613,10 +662,8 @@ ILboolean ReadPalette(ILuint BlockLen)
 	if (Pal.Palette == NULL)
 		return IL_FALSE;
 
-	if (iread(Pal.Palette, Pal.PalSize, 1) != 1) {
-		ifree(Pal.Palette);
+	if (iread(Pal.Palette, Pal.PalSize, 1) != 1)
 		return IL_FALSE;
-	}
 
 	return IL_TRUE;
 }
@@ -629,7 +676,8 @@ ILboolean AssembleImage()
 	Size = AttChunk.Width * AttChunk.Height;
 
 	if (NumChannels == 1) {
-		ilTexImage(AttChunk.Width, AttChunk.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+			return IL_FALSE;
 		for (i = 0; i < Size; i++) {
 			iCurImage->Data[i] = Channels[0][i];
 		}
@@ -639,11 +687,13 @@ ILboolean AssembleImage()
 			iCurImage->Pal.PalSize = Pal.PalSize;
 			iCurImage->Pal.PalType = Pal.PalType;
 			iCurImage->Pal.Palette = Pal.Palette;
+			Pal.Palette = NULL;  // It belongs to the image now.
 		}
 	}
 	else {
-		if (Alpha) {
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+		if (Alpha && NumChannels >= 3) {
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			for (i = 0, j = 0; i < Size; i++, j += 4) {
 				iCurImage->Data[j  ] = Channels[0][i];
 				iCurImage->Data[j+1] = Channels[1][i];
@@ -654,7 +704,8 @@ ILboolean AssembleImage()
 
 		else if (NumChannels == 4) {
 
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 
 			for (i = 0, j = 0; i < Size; i++, j += 4) {
 
@@ -670,15 +721,18 @@ ILboolean AssembleImage()
 
 		}
 		else if (NumChannels == 3) {
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			for (i = 0, j = 0; i < Size; i++, j += 3) {
 				iCurImage->Data[j  ] = Channels[0][i];
 				iCurImage->Data[j+1] = Channels[1][i];
 				iCurImage->Data[j+2] = Channels[2][i];
 			}
 		}
-		else
+		else {
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
 			return IL_FALSE;
+		}
 	}
 
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -702,6 +756,9 @@ ILboolean Cleanup()
 		ifree(Alpha);
 	}
 
+	ifree(Pal.Palette);
+
+	NumChannels = 0;
 	Channels = NULL;
 	Alpha = NULL;
 	Pal.Palette = NULL;
-- 
2.43.0


From c4e30b3434b48c3e0c888edd310d8550b5b6aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 146/161] fix: MNG loader reports libmng errors and frees its
 handle

---
 DevIL/src-IL/src/il_mng.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_mng.cpp b/DevIL/src-IL/src/il_mng.cpp
index 8241c23..8f6a092 100644
--- a/DevIL/src-IL/src/il_mng.cpp
+++ b/DevIL/src-IL/src/il_mng.cpp
@@ -132,12 +132,14 @@ mng_bool MNG_DECL mymngprocessheader(mng_handle mng, mng_uint32 width, mng_uint3
 	AlphaDepth = mng_get_alphadepth(mng);
 
 	if (AlphaDepth == 0) {
-		ilTexImage(width, height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(width, height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
+			return MNG_FALSE;
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 		mng_set_canvasstyle(mng, MNG_CANVAS_BGR8);
 	}
 	else {  // Use alpha channel
-		ilTexImage(width, height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(width, height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+			return MNG_FALSE;
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 		mng_set_canvasstyle(mng, MNG_CANVAS_BGRA8);
 	}
@@ -247,7 +249,8 @@ ILboolean ilLoadMngL(const void *Lump, ILuint Size)
 
 ILboolean iLoadMngInternal()
 {
-	mng_handle mng;
+	mng_handle	mng;
+	mng_retcode	Ret;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -274,8 +277,15 @@ ILboolean iLoadMngInternal()
 	mng_setcb_getcanvasline(mng, mymnggetcanvasline);
 	mng_setcb_refresh(mng, mymngrefresh);
 
-	mng_read(mng);
-	mng_display(mng);
+	// Only the first frame is used, so there is no need to wait for the others.
+	Ret = mng_read(mng);
+	if (Ret == MNG_NOERROR)
+		Ret = mng_display(mng);
+	mng_cleanup(&mng);
+	if (Ret != MNG_NOERROR && Ret != MNG_NEEDTIMERWAIT) {
+		ilSetError(IL_LIB_MNG_ERROR);
+		return IL_FALSE;
+	}
 
 	return ilFixImage();
 }
-- 
2.43.0


From 32f90cceb6b5d95234e249863ecfaf35f44060f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:33 +0000
Subject: [PATCH 147/161] fix: UTX loader keeps within its tables, reads the
 right palette, keeps DXTC data and needs a texture

---
 DevIL/src-IL/src/il_utx.cpp | 127 ++++++++++++++++++++++++------------
 1 file changed, 86 insertions(+), 41 deletions(-)

diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index 4bd71ba..6dba86d 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -50,7 +50,7 @@ ILboolean ilLoadUtxF(ILHANDLE File)
 	catch (bad_alloc &e) {
 		e;
 		ilSetError(IL_OUT_OF_MEMORY);
-		return IL_FALSE;
+		bRet = IL_FALSE;
 	}
 	iseek(FirstPos, IL_SEEK_SET);
 	
@@ -61,15 +61,15 @@ ILboolean ilLoadUtxF(ILHANDLE File)
 //! Reads from a memory "lump" that contains a UTX
 ILboolean ilLoadUtxL(const void *Lump, ILuint Size)
 {
+	iSetInputLump(Lump, Size);
 	try {
-		iSetInputLump(Lump, Size);
+		return iLoadUtxInternal();
 	}
 	catch (bad_alloc &e) {
 		e;
 		ilSetError(IL_OUT_OF_MEMORY);
 		return IL_FALSE;
 	}
-	return iLoadUtxInternal();
 }
 
 
@@ -107,12 +107,16 @@ string GetUtxName(UTXHEADER &Header)
 {
 #define NAME_MAX_LEN 256  //@TODO: Figure out if these can possibly be longer.
 	char	Name[NAME_MAX_LEN];
-	ILubyte	Length = 0;
+	ILuint	Length = 0;
+	ILint	Char;
 
 	// New style (Unreal Tournament) name.  This has a byte at the beginning telling
 	//  how long the string is (plus terminating 0), followed by the terminating 0. 
 	if (Header.Version >= 64) {
-		Length = igetc();
+		Char = igetc();
+		if (Char <= 0)
+			return "";
+		Length = Char;
 		if (iread(Name, Length, 1) != 1)
 			return "";
 		if (Name[Length-1] != 0)
@@ -123,11 +127,14 @@ string GetUtxName(UTXHEADER &Header)
 	// Old style (Unreal) name.  This string length is unknown, but it is terminated
 	//  by a 0.
 	do {
-		Name[Length++] = igetc();
-	} while (!ieof() && Name[Length-1] != 0 && Length < NAME_MAX_LEN);
+		Char = igetc();
+		if (Char == IL_EOF)
+			return "";
+		Name[Length++] = Char;
+	} while (Char != 0 && Length < NAME_MAX_LEN);
 
 	// Never reached the terminating 0.
-	if (Length == NAME_MAX_LEN && Name[Length-1] != 0)
+	if (Char != 0)
 		return "";
 
 	return string(Name);
@@ -140,16 +147,17 @@ bool GetUtxNameTable(vector <UTXENTRYNAME> &NameEntries, UTXHEADER &Header)
 	ILuint	NumRead;
 
 	// Go to the name table.
-	iseek(Header.NameOffset, IL_SEEK_SET);
-
-	NameEntries.resize(Header.NameCount);
+	if (iseek(Header.NameOffset, IL_SEEK_SET) != 0)
+		return false;
 
 	// Read in the name table.
 	for (NumRead = 0; NumRead < Header.NameCount; NumRead++) {
-		NameEntries[NumRead].Name = GetUtxName(Header);
-		if (NameEntries[NumRead].Name == "")
+		UTXENTRYNAME Entry;
+		Entry.Name = GetUtxName(Header);
+		if (Entry.Name == "")
 			break;
-		NameEntries[NumRead].Flags = GetLittleUInt();
+		Entry.Flags = GetLittleUInt();
+		NameEntries.push_back(Entry);
 	}
 
 	// Did not read all of the entries (most likely GetUtxName failed).
@@ -228,6 +236,7 @@ void ChangeObjectReference(ILint *ObjRef, ILboolean *IsImported)
 		*ObjRef = *ObjRef - 1;  // This is an object reference, so we have to do this conversion.
 	}
 	else {
+		*IsImported = IL_FALSE;
 		*ObjRef = -1;  // "NULL" pointer
 	}
 
@@ -240,12 +249,15 @@ bool GetUtxExportTable(vector <UTXEXPORTTABLE> &ExportTable, UTXHEADER &Header)
 	ILuint i;
 
 	// Go to the name table.
-	iseek(Header.ExportOffset, IL_SEEK_SET);
-
-	// Create ExportCount elements in our array.
-	ExportTable.resize(Header.ExportCount);
+	if (iseek(Header.ExportOffset, IL_SEEK_SET) != 0)
+		return false;
 
 	for (i = 0; i < Header.ExportCount; i++) {
+		if (ieof()) {  // The table is longer than the file.
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return false;
+		}
+		ExportTable.push_back(UTXEXPORTTABLE());
 		ExportTable[i].Class = UtxReadCompactInteger();
 		ExportTable[i].Super = UtxReadCompactInteger();
 		ExportTable[i].Group = GetLittleUInt();
@@ -268,12 +280,15 @@ bool GetUtxImportTable(vector <UTXIMPORTTABLE> &ImportTable, UTXHEADER &Header)
 	ILuint i;
 
 	// Go to the name table.
-	iseek(Header.ImportOffset, IL_SEEK_SET);
-
-	// Allocate the name table.
-	ImportTable.resize(Header.ImportCount);
+	if (iseek(Header.ImportOffset, IL_SEEK_SET) != 0)
+		return false;
 
 	for (i = 0; i < Header.ImportCount; i++) {
+		if (ieof()) {  // The table is longer than the file.
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return false;
+		}
+		ImportTable.push_back(UTXIMPORTTABLE());
 		ImportTable[i].ClassPackage = UtxReadCompactInteger();
 		ImportTable[i].ClassName = UtxReadCompactInteger();
 		ImportTable[i].Package = GetLittleUInt();
@@ -323,6 +338,16 @@ ILuint UtxFormatToBpp(ILuint Format)
 }
 
 
+// Checks whether an exported object is of the imported class with this name.
+static bool UtxIsClass(const UTXEXPORTTABLE &Object, const vector <UTXIMPORTTABLE> &ImportTable, const vector <UTXENTRYNAME> &NameEntries, const char *ClassName)
+{
+	if (!Object.ClassImported || Object.Class < 0 || (size_t)Object.Class >= ImportTable.size())
+		return false;
+	ILint Name = ImportTable[Object.Class].ObjectName;
+	return Name >= 0 && (size_t)Name < NameEntries.size() && NameEntries[Name].Name == ClassName;
+}
+
+
 // Internal function used to load the UTX.
 ILboolean iLoadUtxInternal(void)
 {
@@ -332,10 +357,10 @@ ILboolean iLoadUtxInternal(void)
 	vector <UTXIMPORTTABLE> ImportTable;
 	vector <UTXPALETTE> Palettes;
 	ILimage		*Image;
-	ILuint		NumPal = 0, i, j = 0;
+	ILuint		NumPal = 0, i, CompSize;
 	ILint		Name;
 	ILubyte		Type;
-	ILint		Val;
+	ILint		Val = 0;
 	ILint		Size;
 	ILint		Width, Height, PalEntry;
 	ILboolean	BaseCreated = IL_FALSE, HasPal;
@@ -349,8 +374,10 @@ ILboolean iLoadUtxInternal(void)
 
 	if (!GetUtxHead(Header))
 		return IL_FALSE;
-	if (!CheckUtxHead(Header))
+	if (!CheckUtxHead(Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	// We grab the name table.
 	if (!GetUtxNameTable(NameEntries, Header))
@@ -364,7 +391,7 @@ ILboolean iLoadUtxInternal(void)
 
 	// Find the number of palettes in the export table.
 	for (i = 0; i < Header.ExportCount; i++) {
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Palette")
+		if (UtxIsClass(ExportTable[i], ImportTable, NameEntries, "Palette"))
 			NumPal++;
 	}
 	Palettes.resize(NumPal);
@@ -372,11 +399,16 @@ ILboolean iLoadUtxInternal(void)
 	// Read in all of the palettes.
 	NumPal = 0;
 	for (i = 0; i < Header.ExportCount; i++) {
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Palette") {
+		if (UtxIsClass(ExportTable[i], ImportTable, NameEntries, "Palette")) {
 			Palettes[NumPal].Name = i;
-			iseek(ExportTable[NumPal].SerialOffset, IL_SEEK_SET);
+			if (iseek(ExportTable[i].SerialOffset, IL_SEEK_SET) != 0)
+				return IL_FALSE;
 			Name = igetc();  // Skip the 2.  @TODO: Can there be more in front of the palettes?
 			Palettes[NumPal].Count = UtxReadCompactInteger();
+			if (Palettes[NumPal].Count == 0 || Palettes[NumPal].Count > 256) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			Palettes[NumPal].Pal = new ILubyte[Palettes[NumPal].Count * 4];
 			if (iread(Palettes[NumPal].Pal, Palettes[NumPal].Count * 4, 1) != 1)
 				return IL_FALSE;
@@ -386,13 +418,18 @@ ILboolean iLoadUtxInternal(void)
 
 	for (i = 0; i < Header.ExportCount; i++) {
 		// Find textures in the file.
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Texture") {
-			iseek(ExportTable[i].SerialOffset, IL_SEEK_SET);
+		if (UtxIsClass(ExportTable[i], ImportTable, NameEntries, "Texture")) {
+			if (iseek(ExportTable[i].SerialOffset, IL_SEEK_SET) != 0)
+				return IL_FALSE;
 			Width = -1;  Height = -1;  PalEntry = NumPal;  HasPal = IL_FALSE;  Format = -1;
 
 			do {
 				// Always starts with a comptact integer that gives us an entry into the name table.
 				Name = UtxReadCompactInteger();
+				if (Name < 0 || (size_t)Name >= NameEntries.size()) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					return IL_FALSE;
+				}
 				if (NameEntries[Name].Name == "None")
 					break;
 				Type = igetc();
@@ -448,8 +485,7 @@ ILboolean iLoadUtxInternal(void)
 						break;
 				}
 
-				//@TODO: What should we do if Name >= Header.NameCount?
-				if ((ILuint)Name < Header.NameCount) {  // Don't want to go past the end of our array.
+				{
 					if (NameEntries[Name].Name == "Palette") {
 						// If it has references to more than one palette, just use the first one.
 						if (HasPal == IL_FALSE) {
@@ -478,11 +514,14 @@ ILboolean iLoadUtxInternal(void)
 			if (Format == -1)
 				Format = UTX_P8;
 			// Just checks for everything being proper.  If the format is P8, we check to make sure that a palette was found.
-			if (Width == -1 || Height == -1 || (PalEntry == NumPal && Format != UTX_DXT1) || (Format != UTX_P8 && Format != UTX_DXT1))
+			if (Width <= 0 || Height <= 0 || (PalEntry == NumPal && Format != UTX_DXT1) || (Format != UTX_P8 && Format != UTX_DXT1)) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
+			}
 			if (BaseCreated == IL_FALSE) {
 				BaseCreated = IL_TRUE;
-				ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL);
+				if (!ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL))
+					return IL_FALSE;
 				Image = iCurImage;
 			}
 			else {
@@ -512,12 +551,16 @@ ILboolean iLoadUtxInternal(void)
 					break;
 
 				case UTX_DXT1:
-					Image->DxtcSize = IL_MAX(Image->Width * Image->Height / 2, 8);
-					CompData = (ILubyte*)ialloc(Image->DxtcSize);
+					CompSize = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 8;
+					CompData = (ILubyte*)ialloc(CompSize);
 					if (CompData == NULL)
 						return IL_FALSE;
 
-					if (iread(CompData, Image->DxtcSize, 1) != 1) {
+					if (iread(CompData, CompSize, 1) != 1) {
+						ifree(CompData);
+						return IL_FALSE;
+					}
+					if (DecompressDXT1(Image, CompData) == IL_FALSE) {
 						ifree(CompData);
 						return IL_FALSE;
 					}
@@ -525,12 +568,9 @@ ILboolean iLoadUtxInternal(void)
 					if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 						Image->DxtcData = CompData;
 						Image->DxtcFormat = IL_DXT1;
+						Image->DxtcSize = CompSize;
 						CompData = NULL;
 					}
-					if (DecompressDXT1(Image, CompData) == IL_FALSE) {
-						ifree(CompData);
-						return IL_FALSE;
-					}
 					ifree(CompData);
 					break;
 			}
@@ -538,6 +578,11 @@ ILboolean iLoadUtxInternal(void)
 		}
 	}
 
+	if (BaseCreated == IL_FALSE) {  // There is no texture in this package.
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	return ilFixImage();
 }
 
-- 
2.43.0


From e71765525aef41075fc3919485eeac6305bef06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:57 +0000
Subject: [PATCH 148/161] fix: PSP palettes are not transparent

---
 DevIL/src-IL/src/il_psp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index bafa726..e5914fc 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -657,7 +657,7 @@ ILboolean ReadPalette(ILuint BlockLen)
 	}
 
 	Pal.PalSize = PalCount * 4;
-	Pal.PalType = IL_PAL_BGRA32;
+	Pal.PalType = IL_PAL_BGR32;  // The fourth byte is reserved.
 	Pal.Palette = (ILubyte*)ialloc(Pal.PalSize);
 	if (Pal.Palette == NULL)
 		return IL_FALSE;
-- 
2.43.0


From c6d2dd6434e9c10e92e70c0ccb9ccac753a39708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:42 +0000
Subject: [PATCH 149/161] fix: UTX structure properties have a compact name
 index

---
 DevIL/src-IL/src/il_utx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index 6dba86d..1413eb1 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -463,7 +463,7 @@ ILboolean iLoadUtxInternal(void)
 						break;
 
 					case 10:
-						Val = igetc();
+						Val = UtxReadCompactInteger();  // Name of the structure
 						switch (Size)
 						{
 							case 0:
-- 
2.43.0


From 51a8a1c728b2d97dcc52d68555e54dc9a0a9241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:06 +0000
Subject: [PATCH 150/161] fix: ilApplyProfile converts the right number of
 pixels, opens embedded profiles, keeps alpha and reports failures

---
 DevIL/src-IL/src/il_profiles.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_profiles.cpp b/DevIL/src-IL/src/il_profiles.cpp
index 695f9a2..5284c2a 100644
--- a/DevIL/src-IL/src/il_profiles.cpp
+++ b/DevIL/src-IL/src/il_profiles.cpp
@@ -124,17 +124,22 @@ ILboolean ILAPIENTRY ilApplyProfile(ILstring InProfile, ILstring OutProfile)
 		case IL_UNSIGNED_INT:
 		case IL_FLOAT:
 		case IL_DOUBLE:
+		default:
 			ilSetError(IL_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
+	if (OutProfile == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
 
 	if (InProfile == NULL) {
 		if (!iCurImage->Profile || !iCurImage->ProfileSize) {
 			ilSetError(IL_INVALID_PARAM);
 			return IL_FALSE;
 		}
-		hInProfile = iCurImage->Profile;
+		hInProfile = cmsOpenProfileFromMem(iCurImage->Profile, iCurImage->ProfileSize);
 	}
 	else {
 #ifndef _UNICODE
@@ -151,23 +156,36 @@ ILboolean ILAPIENTRY ilApplyProfile(ILstring InProfile, ILstring OutProfile)
 	hOutProfile = cmsOpenProfileFromFile(AnsiName, "r");
 #endif//_UNICODE
 
+	if (hInProfile == NULL || hOutProfile == NULL) {
+		if (hInProfile != NULL)
+			cmsCloseProfile(hInProfile);
+		if (hOutProfile != NULL)
+			cmsCloseProfile(hOutProfile);
+		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		return IL_FALSE;
+	}
+
 	hTransform = cmsCreateTransform(hInProfile, Format, hOutProfile, Format, INTENT_PERCEPTUAL, 0);
+	cmsCloseProfile(hInProfile);
+	cmsCloseProfile(hOutProfile);
+	if (hTransform == NULL) {  // The profiles are not for this kind of image.
+		ilSetError(IL_INVALID_CONVERSION);
+		return IL_FALSE;
+	}
 
 	Temp = (ILubyte*)ialloc(iCurImage->SizeOfData);
 	if (Temp == NULL) {
+		cmsDeleteTransform(hTransform);
 		return IL_FALSE;
 	}
 
-	cmsDoTransform(hTransform, iCurImage->Data, Temp, iCurImage->SizeOfData / 3);
+	memcpy(Temp, iCurImage->Data, iCurImage->SizeOfData);  // The transform leaves alpha out.
+	cmsDoTransform(hTransform, iCurImage->Data, Temp, iCurImage->Width * iCurImage->Height * iCurImage->Depth);
+	cmsDeleteTransform(hTransform);
 
 	ifree(iCurImage->Data);
 	iCurImage->Data = Temp;
 
-	cmsDeleteTransform(hTransform);
-	if (InProfile != NULL)
-		cmsCloseProfile(hInProfile);
-	cmsCloseProfile(hOutProfile);
-
 #endif//IL_NO_LCMS
 
 	return IL_TRUE;
-- 
2.43.0


From fa44f3bc74c2049a3bc6a9e4d5a8d8bbc05b8cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:38 +0000
Subject: [PATCH 151/161] fix: ilLoadData and ilSaveData refuse a missing file
 name

---
 DevIL/src-IL/src/il_rawdata.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index c4ca439..273ad3f 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -30,6 +30,11 @@ ILboolean ILAPIENTRY ilLoadData(ILconst_string FileName, ILuint Width, ILuint He
 		return bRaw;
 	}*/
 
+	if (FileName == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return bRaw;
+	}
+
 	RawFile = iopenr(FileName);
 	if (RawFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
@@ -99,6 +104,11 @@ ILboolean ILAPIENTRY ilSaveData(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
+	if (FileName == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
 		if (iFileExists(FileName)) {
 			ilSetError(IL_FILE_ALREADY_EXISTS);
-- 
2.43.0


From 6ffe7a14f618a643bd880e99c96aab9c22b1c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:46 +0000
Subject: [PATCH 152/161] fix: ilLoadDataF and ilLoadDataL refuse missing data

---
 DevIL/src-IL/src/il_rawdata.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index 273ad3f..1bb11bd 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -54,6 +54,11 @@ ILboolean ILAPIENTRY ilLoadDataF(ILHANDLE File, ILuint Width, ILuint Height, ILu
 	ILuint		FirstPos;
 	ILboolean	bRet;
 
+	if (File == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	iSetInputFile(File);
 	FirstPos = itell();
 	bRet = iLoadDataInternal(Width, Height, Depth, Bpp);
@@ -66,6 +71,11 @@ ILboolean ILAPIENTRY ilLoadDataF(ILHANDLE File, ILuint Width, ILuint Height, ILu
 //! Reads from a raw data memory "lump"
 ILboolean ILAPIENTRY ilLoadDataL(void *Lump, ILuint Size, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp)
 {
+	if (Lump == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	iSetInputLump(Lump, Size);
 	return iLoadDataInternal(Width, Height, Depth, Bpp);
 }
-- 
2.43.0


From 3fe203bc43ea1b5a00044b3dad9264dde6dd0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:46 +0000
Subject: [PATCH 153/161] fix: clearing an image without a format records no
 error

---
 DevIL/src-IL/src/il_devil.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 0c321e4..6a1c7c4 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -485,7 +485,9 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 		return IL_FALSE;
 	}
 	memset(Colours, 0, sizeof(Colours));
-	ilGetClear(Colours, Image->Format, Image->Type);
+	// Images without a format become all zeros.
+	if (ilGetBppFormat(Image->Format) != 0)
+		ilGetClear(Colours, Image->Format, Image->Type);
 	for (i = 0; i + NumBytes <= Image->SizeOfData; i += NumBytes)
 		memcpy(Image->Data + i, Colours, NumBytes);
 
-- 
2.43.0


From 5e1a81479f7021a668cae1428dfc02e85011ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:25 +0000
Subject: [PATCH 154/161] fix: ilGetAlpha refuses an image without a format

---
 DevIL/src-IL/src/il_manip.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 02fafe6..d3b333b 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -632,6 +632,10 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
+	if (ilGetBppFormat(iCurImage->Format) == 0) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return NULL;
+	}
 
 	if (iCurImage->Format == IL_COLOUR_INDEX) {  // The alpha is in the palette.
 		TempImage = iConvertImage(iCurImage, IL_RGBA, Type);
-- 
2.43.0


From b53af9f7d5dff2038652593aba92c18ec815d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:49 +0000
Subject: [PATCH 155/161] fix: regions with equal neighbouring corners or level
 steps are filled right

---
 DevIL/src-ILU/src/ilu_region.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 61ea074..6f22f51 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -114,6 +114,19 @@ ILint yNext(ILint k, ILint cnt, ILpointi *pts)
 }
 
 
+// For an index, return the last y-coordinate before it that is different
+ILint yBefore(ILint k, ILint cnt, ILpointi *pts)
+{
+	ILint j = k;
+
+	do {
+		j = j == 0 ? cnt - 1 : j - 1;
+	} while (pts[j].y == pts[k].y && j != k);
+
+	return pts[j].y;
+}
+
+
 // Store lower-y coordinate and inverse slope for each edge.  Adjust
 //	and store upper-y coordinate for edges that are the lower member
 //	of a monotonically increasing or decreasing pair of edges
@@ -135,7 +148,7 @@ ILboolean BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 	Edge *edge;
 	ILpointi v1, v2;
 	ILuint i;
-	ILint yPrev = pts[cnt - 2].y;
+	ILint yPrev = yBefore(cnt - 1, cnt, pts);
 
 	v1.x = pts[cnt-1].x;
 	v1.y = pts[cnt-1].y;
@@ -153,7 +166,8 @@ ILboolean BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 				MakeEdgeRec(v2, v1, yPrev, edge, edges);
 			}
 		}
-		yPrev = v1.y;
+		if (v1.y != v2.y)
+			yPrev = v1.y;
 		v1 = v2;
 	}
 
-- 
2.43.0


From 32a99dfce219c38b5752ca42ec7082e017bd561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:57 +0000
Subject: [PATCH 156/161] fix: raw data loads are refused outside of a session

---
 DevIL/src-IL/src/il_rawdata.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index 1bb11bd..766a9b4 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -30,6 +30,10 @@ ILboolean ILAPIENTRY ilLoadData(ILconst_string FileName, ILuint Width, ILuint He
 		return bRaw;
 	}*/
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return bRaw;
+	}
 	if (FileName == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return bRaw;
@@ -54,6 +58,10 @@ ILboolean ILAPIENTRY ilLoadDataF(ILHANDLE File, ILuint Width, ILuint Height, ILu
 	ILuint		FirstPos;
 	ILboolean	bRet;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
-- 
2.43.0


From c81b85fa7ab57d842202b365285ea68964540ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:57 +0000
Subject: [PATCH 157/161] fix: ilInit sets the clear colour back to its default

---
 DevIL/src-IL/include/il_internal.h |  1 +
 DevIL/src-IL/src/il_devil.cpp      | 12 ++++++++++++
 DevIL/src-IL/src/il_stack.cpp      |  1 +
 3 files changed, 14 insertions(+)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 4e80818..37abf4b 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -179,6 +179,7 @@ ILuint		ilStrLen(ILconst_string Str);
 ILuint		ilCharStrLen(const char *Str);
 // Miscellaneous functions
 void					ilDefaultStates(void);
+void					iDefaultClear(void);
 void					iFreeStates(void);
 ILenum					iGetHint(ILenum Target);
 void					iQuietErrors(ILboolean Quiet);
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 6a1c7c4..c558f3f 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -352,6 +352,18 @@ static ILfloat ClearBlue  = 0.90588f;
 static ILfloat ClearAlpha = 0.0f;
 static ILfloat ClearLum   = 1.0f;
 
+
+//! Sets the clear colour a session begins with.
+void iDefaultClear()
+{
+	ClearRed	= 1.0f;
+	ClearGreen	= 0.972549f;
+	ClearBlue	= 0.90588f;
+	ClearAlpha	= 0.0f;
+	ClearLum	= 1.0f;
+}
+
+
 void ILAPIENTRY ilClearColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclampf Alpha)
 {
 	// Clamp to 0.0f - 1.0f.
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 973e249..0631273 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -641,6 +641,7 @@ void ILAPIENTRY ilInit()
 	iReleaseSession();  // Calls made before may have left something behind.
 	ilDefaultStates();
 	ilKeyColour(0, 0, 0, 0);  // Set states to their defaults.
+	iDefaultClear();
 	// Sets default file-reading callbacks.
 	ilResetRead();
 	ilResetWrite();
-- 
2.43.0


From 2e5c05598a38394ac0adc709706213e5b522ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:04 +0000
Subject: [PATCH 158/161] fix: iluErrorString works before iluInit

---
 DevIL/src-ILU/src/ilu_error.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_error.cpp b/DevIL/src-ILU/src/ilu_error.cpp
index 38c37ef..6b2d9f8 100644
--- a/DevIL/src-ILU/src/ilu_error.cpp
+++ b/DevIL/src-ILU/src/ilu_error.cpp
@@ -22,9 +22,9 @@
 #include "ilu_error/ilu_err-spanish.h"
 
 
-ILconst_string *iluErrors;
-ILconst_string *iluLibErrors;
-ILconst_string *iluMiscErrors;
+ILconst_string *iluErrors = iluErrorStringsEnglish;
+ILconst_string *iluLibErrors = iluLibErrorStringsEnglish;
+ILconst_string *iluMiscErrors = iluMiscErrorStringsEnglish;
 #define ILU_NUM_LANGUAGES 8
 
 ILconst_string *iluErrorStrings[ILU_NUM_LANGUAGES] = {
-- 
2.43.0


From 8694419de11584072fc7f4f5fd8a60f7f10d7a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:02 +0000
Subject: [PATCH 159/161] fix: files can be looked at before ilInit

---
 DevIL/src-IL/src/il_files.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index e7b079b..f8c6aff 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -279,6 +279,12 @@ void ILAPIENTRY ilResetWrite()
 }
 
 
+// Calls that come before ilInit find the default functions, too.
+static struct iDefaultProcs {
+	iDefaultProcs() { ilResetRead(); ilResetWrite(); }
+} DefaultProcs;
+
+
 //! Allows you to override the default file-reading functions.
 void ILAPIENTRY ilSetRead(fOpenRProc Open, fCloseRProc Close, fEofProc Eof, fGetcProc Getc, fReadProc Read, fSeekRProc Seek, fTellRProc Tell)
 {
-- 
2.43.0


From 2905e1eb8cd8328fe13bcf0686b8127f733667a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:07 +0000
Subject: [PATCH 160/161] fix: files shorter than the PSP header are not
 recognised as PSP

---
 DevIL/src-IL/src/il_psp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index e5914fc..47bedd8 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -87,10 +87,10 @@ ILboolean ilIsValidPspL(const void *Lump, ILuint Size)
 // Internal function used to get the Psp header from the current file.
 ILboolean iGetPspHead()
 {
-	if (iread(Header.FileSig, 1, 32) != 32)
+	if (iread(&Header, 1, sizeof(PSPHEAD)) != sizeof(PSPHEAD))
 		return IL_FALSE;
-	Header.MajorVersion = GetLittleUShort();
-	Header.MinorVersion = GetLittleUShort();
+	UShort(&Header.MajorVersion);
+	UShort(&Header.MinorVersion);
 
 	return IL_TRUE;
 }
-- 
2.43.0


From c6d67042192d84360d6d4c50616a3c949864e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:45 +0000
Subject: [PATCH 161/161] fix: CMYK JPEG files are loaded as colours, not as
 inks

---
 DevIL/src-IL/src/il_jpeg.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_jpeg.cpp b/DevIL/src-IL/src/il_jpeg.cpp
index 61b29f3..4ddcf74 100644
--- a/DevIL/src-IL/src/il_jpeg.cpp
+++ b/DevIL/src-IL/src/il_jpeg.cpp
@@ -849,6 +849,27 @@ ILboolean iSaveJpegInternal(ILstring FileName, void *Lump, ILuint Size)
 #endif//IL_USE_IJL
 
 
+#ifndef IL_NO_JPG
+#ifndef IL_USE_IJL
+// Converts a row of cyan, magenta, yellow and black to RGB.  Adobe's files have them inverted.
+static void iJpegFromInks(j_decompress_ptr JpegInfo, const JSAMPLE *Inks, ILubyte *Row)
+{
+	ILuint	x, c;
+
+	for (x = 0; x < JpegInfo->output_width; x++, Inks += 4, Row += 3) {
+		for (c = 0; c < 3; c++) {
+			if (JpegInfo->saw_Adobe_marker)
+				Row[c] = (ILubyte)((Inks[c] * Inks[3] + 127) / 255);
+			else
+				Row[c] = (ILubyte)(((255 - Inks[c]) * (255 - Inks[3]) + 127) / 255);
+		}
+	}
+	return;
+}
+#endif
+#endif
+
+
 // Access point for applications wishing to use the jpeg library directly in
 // conjunction with DevIL.
 //
@@ -862,6 +883,7 @@ ILboolean ilLoadFromJpegStruct(void *_JpegInfo)
 #ifndef IL_USE_IJL
 	// sam. void (*errorHandler)(j_common_ptr);
 	ILubyte	*TempPtr[1];
+	JSAMPARRAY	Inks = NULL;
 	ILuint	Returned;
 	j_decompress_ptr JpegInfo = (j_decompress_ptr)_JpegInfo;
 
@@ -872,7 +894,11 @@ ILboolean ilLoadFromJpegStruct(void *_JpegInfo)
 	// sam. JpegInfo->err->error_exit = ExitErrorHandle;
 	jpeg_start_decompress((j_decompress_ptr)JpegInfo);
 
-	if (!ilTexImage(JpegInfo->output_width, JpegInfo->output_height, 1, (ILubyte)JpegInfo->output_components, 0, IL_UNSIGNED_BYTE, NULL)) {
+	// There are no images of inks: they are converted while they are read.
+	if (JpegInfo->out_color_space == JCS_CMYK)
+		Inks = (*JpegInfo->mem->alloc_sarray)((j_common_ptr)JpegInfo, JPOOL_IMAGE, JpegInfo->output_width * 4, 1);
+
+	if (!ilTexImage(JpegInfo->output_width, JpegInfo->output_height, 1, Inks ? 3 : (ILubyte)JpegInfo->output_components, 0, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -895,7 +921,9 @@ ILboolean ilLoadFromJpegStruct(void *_JpegInfo)
 
 	TempPtr[0] = iCurImage->Data;
 	while (JpegInfo->output_scanline < JpegInfo->output_height) {
-		Returned = jpeg_read_scanlines(JpegInfo, TempPtr, 1);  // anyway to make it read all at once?
+		Returned = jpeg_read_scanlines(JpegInfo, Inks ? Inks : TempPtr, 1);  // anyway to make it read all at once?
+		if (Inks && Returned != 0)
+			iJpegFromInks(JpegInfo, Inks[0], TempPtr[0]);
 		TempPtr[0] += iCurImage->Bps;
 		if (Returned == 0)
 			break;
-- 
2.43.0

