From 316d07c72f5b002e5fe97f9ed09969836f6d5c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:20 +0000
Subject: [PATCH 01/70] fix: Image::at(range) rejects an index with the wrong
 number of coordinates

---
 image.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image.h b/image.h
index 43bee97..18dda93 100644
--- a/image.h
+++ b/image.h
@@ -236,6 +236,10 @@ namespace TinyDIP
         constexpr decltype(auto) at(const Indices& indexInput) const
         {
             std::size_t i = 0;
+            if (static_cast<std::size_t>(std::ranges::distance(indexInput)) != std::ranges::size(size))
+            {
+                throw std::runtime_error("Dimensionality mismatched!");
+            }
             // Iterate using ranges to universally support both continuous (std::vector) and discrete (std::list) ranges
             for (const auto& idx : indexInput)
             {
@@ -255,6 +259,10 @@ namespace TinyDIP
         constexpr decltype(auto) at(const Indices& indexInput)
         {
             std::size_t i = 0;
+            if (static_cast<std::size_t>(std::ranges::distance(indexInput)) != std::ranges::size(size))
+            {
+                throw std::runtime_error("Dimensionality mismatched!");
+            }
             for (const auto& idx : indexInput)
             {
                 if (static_cast<std::size_t>(idx) >= size[i])
-- 
2.43.0


From a9324c0eb796f560fc98ae2a7ad8fe2263d72111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:20 +0000
Subject: [PATCH 02/70] fix: Image rejects nested rows of different lengths

---
 image.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image.h b/image.h
index 18dda93..61ff35c 100644
--- a/image.h
+++ b/image.h
@@ -207,6 +207,10 @@ namespace TinyDIP
             size.emplace_back(std::ranges::size(input));
             for (auto& rows : input)
             {
+                if (std::ranges::size(rows) != size[0])
+                {
+                    throw std::runtime_error("Image data input and the given size are mismatched!");
+                }
                 image_data.insert(std::ranges::end(image_data), std::ranges::begin(rows), std::ranges::end(rows));    //  flatten
             }
             return;
-- 
2.43.0


From 60ed41f0a621efc18949e9843dc1f91bd46219e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:20 +0000
Subject: [PATCH 03/70] fix: parallel setAllValue on a bool image no longer
 loses pixels to a data race

---
 image.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/image.h b/image.h
index 61ff35c..78f12d9 100644
--- a/image.h
+++ b/image.h
@@ -515,7 +515,15 @@ namespace TinyDIP
         requires(std::is_execution_policy_v<std::remove_cvref_t<ExecutionPolicy>>)
         Image<ElementT>& setAllValue(ExecutionPolicy&& execution_policy, const ElementT& input)
         {
-            std::fill(std::forward<ExecutionPolicy>(execution_policy), std::ranges::begin(image_data), std::ranges::end(image_data), input);
+            if constexpr (std::same_as<ElementT, bool>)
+            {
+                // std::vector<bool> packs pixels into shared words, so they cannot be written concurrently
+                std::fill(std::ranges::begin(image_data), std::ranges::end(image_data), input);
+            }
+            else
+            {
+                std::fill(std::forward<ExecutionPolicy>(execution_policy), std::ranges::begin(image_data), std::ranges::end(image_data), input);
+            }
             return *this;
         }
 
-- 
2.43.0


From 967c5bf1e38722b961b0b35f3ea5d7591f090744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:20 +0000
Subject: [PATCH 04/70] fix: VolumetricImage size constructor initialises width
 and height from its arguments

---
 cube.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cube.h b/cube.h
index e7953f7..83f9f79 100644
--- a/cube.h
+++ b/cube.h
@@ -28,8 +28,8 @@ namespace TinyDIP
 		VolumetricImage() = default;
 
         VolumetricImage(const std::size_t newWidth, const std::size_t newHeight, const std::size_t newDepth):
-            width(width),
-            height(height),
+            width(newWidth),
+            height(newHeight),
             depth(newDepth),
             data(width * height * depth) { }
 
-- 
2.43.0


From f8c86d259aad1a20632b2a80d9970d12ea548569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:09 +0000
Subject: [PATCH 05/70] fix: difference covers every channel of a multi-channel
 pixel, whatever their number

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 4f4a4b2..4b09708 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -3905,7 +3905,7 @@ namespace TinyDIP
             [](InputT element1, InputT element2)
             {
                 InputT output;
-                for(std::size_t channel_index = 0; channel_index < 3; ++channel_index)
+                for(std::size_t channel_index = 0; channel_index < std::size(output.channels); ++channel_index)
                 {
                     output.channels[channel_index] =
                         (element1.channels[channel_index] > element2.channels[channel_index]) ?
-- 
2.43.0


From 8695cf9946c1c9fb6ae69ebce5ea0a155573485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:04 +0000
Subject: [PATCH 06/70] fix: the file size in a BMP header includes the row
 padding

---
 image_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_io.cpp b/image_io.cpp
index 4da6d62..dd8f4a5 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -327,7 +327,7 @@ namespace TinyDIP
         0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
         0, 0, 0, 0                        
         };                                
-        unsigned long file_size = (long)xsize * (long)ysize * 3 + 54;
+        unsigned long file_size = ((long)xsize * 3 + FillingByte) * (long)ysize + 54;
         unsigned long width, height;
         std::filesystem::path fname_bmp;
         header[2] = (unsigned char)(file_size &0x000000ff);
-- 
2.43.0


From 538380d4c5d65aeed626dee2667cb8836486e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:04 +0000
Subject: [PATCH 07/70] fix: bmp_file_read closes the file it opens, so reading
 many images no longer exhausts file handles

---
 image_io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image_io.cpp b/image_io.cpp
index dd8f4a5..7905cfe 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -205,6 +205,7 @@ namespace TinyDIP
             throw std::runtime_error("Fail to read BMP file!");
             return output;
         }             
+        fclose(fp);
         output.FILENAME = fname_bmp;
         int OriginSizeX = bmp_read_x_size(output.FILENAME.string().c_str(),true);
         int OriginSizeY = bmp_read_y_size(output.FILENAME.string().c_str(),true);
-- 
2.43.0


From 96be352a84fd937112ea83948ee6e37b00666641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:04 +0000
Subject: [PATCH 08/70] fix: BMP size queries report a truncated header instead
 of returning uninitialised sizes

---
 image_io.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 7905cfe..6af14f1 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -43,7 +43,11 @@ namespace TinyDIP
         }             
         unsigned char header[54];
         auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-        (void)returnValue;
+        if (returnValue != 54)
+        {
+            fclose(fp);
+            return -1;
+        }
         unsigned long output;
         output = header[18] + 
             ((unsigned long)header[19] << 8) +
@@ -74,7 +78,11 @@ namespace TinyDIP
         }             
         unsigned char header[54];
         auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-        (void)returnValue;
+        if (returnValue != 54)
+        {
+            fclose(fp);
+            return -1;
+        }
         unsigned long output; 
         output= header[22] + 
             ((unsigned long)header[23] << 8) +
-- 
2.43.0


From ec2434f69ba98214c8313931cb2cb95db477fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:04 +0000
Subject: [PATCH 09/70] fix: reading a top-down BMP no longer runs a shell
 command for every byte and pixel

---
 image_io.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 6af14f1..4fe198b 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -250,12 +250,6 @@ namespace TinyDIP
                 OriginImageData[i] = 255;
             }
             bmp_read_detail(OriginImageData, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true);
-            for (size_t loop = 0; loop < (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE; loop++)
-            {
-                printf("%d\n", OriginImageData[loop]);
-                auto returnValue = system("read -n 1 -s -p \"Press any key to continue...\n\"");
-                (void)returnValue;
-            }
             for(int y = 0; y < output.YSIZE; y++)
             {
                 for(int x = 0; x < output.XSIZE; x++)
@@ -264,12 +258,6 @@ namespace TinyDIP
                         output.IMAGE_DATA[3 * (y * output.XSIZE + x) + y * output.FILLINGBYTE + (2 - color)] = 
                             OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + (output.YSIZE - y - 1) * output.FILLINGBYTE + (2 - color)];
                     }
-                    printf("Pixel (%d, %d): %d, %d, %d\n", x, y, 
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 2],
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 1],
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 0]);
-                    auto returnValue = system("read -n 1 -s -p \"Press any key to continue...\n\"");
-                    (void)returnValue;
                 }
             }
             free(OriginImageData);
-- 
2.43.0


From 26921f41539855f34ebbf265ffa7debc54b88806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:04 +0000
Subject: [PATCH 10/70] fix: pnm::write validates the format before it
 truncates the target file

---
 image_io.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/image_io.h b/image_io.h
index c3f0a0d..f998e79 100644
--- a/image_io.h
+++ b/image_io.h
@@ -544,15 +544,15 @@ namespace TinyDIP
             const std::string& magic = "P3", 
             const int max_value = 255)
         {
-            std::ofstream file(file_path, std::ios::binary);
-            if (!file.is_open())
+            if (magic != "P1" && magic != "P2" && magic != "P3")
             {
-                throw std::runtime_error("Could not open file for writing: " + file_path.string());
+                throw std::invalid_argument("Unsupported magic number for writing. Please use P1, P2, or P3.");
             }
 
-            if (magic != "P1" && magic != "P2" && magic != "P3")
+            std::ofstream file(file_path, std::ios::binary);
+            if (!file.is_open())
             {
-                throw std::invalid_argument("Unsupported magic number for writing. Please use P1, P2, or P3.");
+                throw std::runtime_error("Could not open file for writing: " + file_path.string());
             }
 
             const std::size_t width = image.getWidth();
-- 
2.43.0


From 5ab554b96364fdc7a7ac7bb6193f0aed960eb460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:13 +0000
Subject: [PATCH 11/70] fix: a top-down BMP with a single row is read instead
 of being taken for an error

---
 image_io.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 4fe198b..ff40a5d 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -215,13 +215,15 @@ namespace TinyDIP
         }             
         fclose(fp);
         output.FILENAME = fname_bmp;
-        int OriginSizeX = bmp_read_x_size(output.FILENAME.string().c_str(),true);
-        int OriginSizeY = bmp_read_y_size(output.FILENAME.string().c_str(),true);
-        if( (OriginSizeX == -1) || (OriginSizeY == -1) )
+        const unsigned long RawSizeX = bmp_read_x_size(output.FILENAME.string().c_str(),true);
+        const unsigned long RawSizeY = bmp_read_y_size(output.FILENAME.string().c_str(),true);
+        if( (RawSizeX == static_cast<unsigned long>(-1)) || (RawSizeY == static_cast<unsigned long>(-1)) )
         {     
             std::cerr << "Fail to fetch information of image!";
             return output;
         }
+        int OriginSizeX = RawSizeX;
+        int OriginSizeY = RawSizeY;     //  a stored height of -1 is a top-down image with a single row, not an error
         //  Deal with the negative height
         if (OriginSizeY < 0)
         {
-- 
2.43.0


From d653b8690ee9fde1d08a21eedf176801e31f63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:04 +0000
Subject: [PATCH 12/70] fix: floating-point image readers close the file when
 its header is unusable

---
 image_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/image_io.cpp b/image_io.cpp
index ff40a5d..20314a0 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -499,6 +499,7 @@ namespace TinyDIP
             if ((OriginSizeX == -1) || (OriginSizeY == -1))
             {
                 std::cerr << "Fail to fetch information of image!";
+                fclose(fp);
                 return TinyDIP::Image<double>(0, 0);
             }
             printf("Width of the input image: %d\n", OriginSizeX);
@@ -627,6 +628,7 @@ namespace TinyDIP
         if ((OriginSizeX == -1) || (OriginSizeY == -1))
         {
             std::cerr << "Fail to fetch information of image!";
+            fclose(fp);
             return Image<HSV>(0, 0);
         }
         printf("Width of the input image: %d\n", OriginSizeX);
-- 
2.43.0


From d28f28deb61a4fe5c6d58ced89f56d1170796f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:24 +0000
Subject: [PATCH 13/70] fix: image arithmetic rejects operands of different
 sizes instead of reading past the shorter one

---
 image_operations.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 4b09708..a28766a 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -3330,7 +3330,12 @@ namespace TinyDIP
     template<class InputT, class... Args>
     constexpr static Image<InputT> add(const Image<InputT>& input1, const Args&... inputs)
     {
-        return pixelwise_transform(std::plus<>{}, input1, add(inputs...));
+        const auto rest = add(inputs...);
+        if (input1.getSize() != rest.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
+        return pixelwise_transform(std::plus<>{}, input1, rest);
     }
 
     template<class InputT, class... Args>
@@ -3516,7 +3521,12 @@ namespace TinyDIP
     template<class InputT, class... Args>
     constexpr static auto pixelwise_multiplies(const Image<InputT>& input1, const Args&... inputs)
     {
-        return pixelwise_transform(std::multiplies<>{}, input1, pixelwise_multiplies(inputs...));
+        const auto rest = pixelwise_multiplies(inputs...);
+        if (input1.getSize() != rest.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
+        return pixelwise_transform(std::multiplies<>{}, input1, rest);
     }
 
     //  pixelwise_multiplies Template Function Implementation
@@ -3585,12 +3595,14 @@ namespace TinyDIP
     template<class InputT>
     constexpr static Image<InputT> divides(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(std::divides<>{}, input1, input2);
     }
     
     template<class InputT>
     constexpr static Image<InputT> modulus(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(std::modulus<>{}, input1, input2);
     }
 
@@ -3888,6 +3900,7 @@ namespace TinyDIP
     template<arithmetic ElementT = double>
     constexpr static auto difference(const Image<ElementT>& input1, const Image<ElementT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform([](auto&& element1, auto&& element2)
             {
                 if (element1 > element2)
@@ -3901,6 +3914,7 @@ namespace TinyDIP
     requires((std::same_as<InputT, RGB>) || (std::same_as<InputT, RGB_DOUBLE>) || (std::same_as<InputT, HSV>) || is_MultiChannel<InputT>::value)
     constexpr static auto difference(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(
             [](InputT element1, InputT element2)
             {
-- 
2.43.0


From f55e683aa85327ad193e172ea46248b5db71d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:11 +0000
Subject: [PATCH 14/70] fix: same-size N-dimensional convolution returns the
 convolved image instead of the input

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index a28766a..ebe8f03 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -724,9 +724,9 @@ namespace TinyDIP
         {
             output = subimage(
                 std::forward<ExecutionPolicy>(execution_policy),
-                image,
+                output,
                 image.getSize(),
-                get_center_location(std::forward<ExecutionPolicy>(execution_policy), image)
+                get_center_location(std::forward<ExecutionPolicy>(execution_policy), output)
                 );
         }
         return output;
-- 
2.43.0


From 575670d3e4af140c24a9c3c46045ea47a169b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:18 +0000
Subject: [PATCH 15/70] fix: the inverse three-dimensional cosine transform of
 a list of images can be instantiated

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index ebe8f03..7241f73 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -3817,7 +3817,7 @@ namespace TinyDIP
         output.resize(input.size());
         for (std::size_t i = 0; i < input.size(); ++i)
         {
-            output[i] = idct3_one_plane<ElementT, OutputT>(input, i);
+            output[i] = idct3_one_plane<std::vector<Image<ElementT>>, ElementT, OutputT>(input, i);
         }
         return output;
     }
-- 
2.43.0


From e45158230a412dbb9f0ba24bff2a7676114c5440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 16/70] fix: subimage2 refuses a region that ends one past the
 last row or column

---
 image_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 7241f73..c767467 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1916,13 +1916,13 @@ namespace TinyDIP
         {
             throw std::runtime_error(Formatter() << "error: starty > endy starty = " << starty << ", endy = " << endy << '\n');
         }
-        if ((startx > input.getWidth()) || (endx > input.getWidth()))
+        if ((startx >= input.getWidth()) || (endx >= input.getWidth()))
         {
-            throw std::runtime_error(Formatter() << "error: (startx or endx) > image width\n");
+            throw std::runtime_error(Formatter() << "error: (startx or endx) >= image width\n");
         }
-        if ((starty > input.getHeight()) || (endy > input.getHeight()))
+        if ((starty >= input.getHeight()) || (endy >= input.getHeight()))
         {
-            throw std::runtime_error(Formatter() << "error: (starty or endy) > image height\n");
+            throw std::runtime_error(Formatter() << "error: (starty or endy) >= image height\n");
         }
         Image<ElementT> output(endx - startx + 1, endy - starty + 1);
         const auto width = output.getWidth();
-- 
2.43.0


From e5b0958387b2265f3270052cc9ce86c7ba6843d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 17/70] fix: split_overlap cuts each block where it lies in the
 padded image

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index c767467..1b4c750 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2026,8 +2026,8 @@ namespace TinyDIP
             for (std::size_t x = 0; x < xsegments; ++x)
             {
                 std::vector<std::size_t> new_sizes{block_size_x + 2 * x_extension_pixel_count, block_size_y + 2 * y_extension_pixel_count};
-                auto centerx = x * block_size_x + static_cast<std::size_t>((block_size_x - 1) / 2.0);
-                auto centery = y * block_size_y + static_cast<std::size_t>((block_size_y - 1) / 2.0);
+                auto centerx = x * block_size_x + new_sizes[0] / 2;
+                auto centery = y * block_size_y + new_sizes[1] / 2;
                 std::vector<std::size_t> centers{centerx, centery};
                 output2.push_back(subimage(
                     std::forward<ExecutionPolicy>(execution_policy),
-- 
2.43.0


From 4bc83e32bf613a86d7c2ead28cb7d53278df09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 18/70] fix: highlight_region near the border is clipped to the
 image

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 1b4c750..49efdb8 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1948,9 +1948,9 @@ namespace TinyDIP
         assert(startx <= endx);
         assert(starty <= endy);
         auto output = input;
-        for (std::size_t y = starty - width / 2; y < endy + width / 2; ++y)
+        for (std::size_t y = (starty > width / 2) ? (starty - width / 2) : 0; y < std::min(endy + width / 2, input.getHeight()); ++y)
         {
-            for (std::size_t x = startx - width / 2; x < endx + width / 2; ++x)
+            for (std::size_t x = (startx > width / 2) ? (startx - width / 2) : 0; x < std::min(endx + width / 2, input.getWidth()); ++x)
             {
                 if (std::abs(static_cast<int>(x) - static_cast<int>(startx)) < width ||
                     std::abs(static_cast<int>(x) - static_cast<int>(endx)) < width ||
-- 
2.43.0


From c509df6ae7e920922ace0cb6aebd6c3d282f4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:11 +0000
Subject: [PATCH 19/70] fix: cubic interpolation between integer samples keeps
 the fraction instead of truncating it to zero

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 49efdb8..2c9f333 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2277,7 +2277,7 @@ namespace TinyDIP
             const auto f = static_cast<ScalarT>(frac);
             return D + f * (C + f * (B + f * A));
         }
-        else if constexpr (std::is_arithmetic_v<DecayedT1>)
+        else if constexpr (std::is_floating_point_v<DecayedT1>)
         {
             const auto f = static_cast<DecayedT1>(frac);
             return D + f * (C + f * (B + f * A));
-- 
2.43.0


From 5279f9d29c65b9d2d18a2000479847648390ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 20/70] fix: rotate turns the image by the whole angle instead
 of its remainder modulo a quarter turn

---
 image_operations.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 2c9f333..c139f46 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5118,13 +5118,23 @@ namespace TinyDIP
             throw std::runtime_error("Unsupported dimension!");
         }
         auto output = input;
-        radians = std::fmod(radians, std::numbers::pi_v<long double> / 2.0);
-        while(radians > std::numbers::pi_v<long double> / 2.0)
+        constexpr long double quarter_turn = std::numbers::pi_v<long double> / 2.0L;
+        //  An angle in floating point equals a multiple of a quarter turn only up to rounding
+        const long double tolerance = 8 * std::max(1.0L, std::abs(static_cast<long double>(radians))) * std::numeric_limits<FloatingType>::epsilon();
+        long double remaining = std::fmod(static_cast<long double>(radians), 4 * quarter_turn);
+        if (remaining < 0)
         {
-            output = rotate_detail(output, std::numbers::pi_v<long double> / 2.0);
-            radians-=(std::numbers::pi_v<long double> / 2.0);
+            remaining += 4 * quarter_turn;
+        }
+        while(remaining > quarter_turn - tolerance)
+        {
+            output = rotate_detail(output, quarter_turn);
+            remaining -= quarter_turn;
+        }
+        if (remaining > tolerance)
+        {
+            output = rotate_detail(output, static_cast<FloatingType>(remaining));
         }
-        output = rotate_detail(output, radians);
         return output;
     }
 
-- 
2.43.0


From a0019f506e2f7edd313bf6c17271016726811ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:02 +0000
Subject: [PATCH 21/70] fix: hsv2rgb saturates values beyond 255 instead of
 wrapping them, so increase_intensity cannot darken

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index c139f46..960ee88 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -901,7 +901,7 @@ namespace TinyDIP
     static auto hsv2rgb(HSV input)
     {
         RGB output{};
-        long double H = input.channels[0], S = input.channels[1], Max = input.channels[2];
+        long double H = input.channels[0], S = input.channels[1], Max = std::clamp(input.channels[2], 0.0, 255.0);
         std::uint8_t hi = static_cast<std::uint8_t>(floor(H / 60.0));
         long double f = (H / 60.0) - hi;
         long double Min, q, t;
-- 
2.43.0


From d03bc066eb0d1229e44c4183bdb3d3588bf6155a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 23:10:23 +0000
Subject: [PATCH 22/70] fix: Histogram iterators refer to the histogram instead
 of a destroyed copy

---
 histogram.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/histogram.h b/histogram.h
index 50cf0a4..24a0330 100644
--- a/histogram.h
+++ b/histogram.h
@@ -239,12 +239,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cbegin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cbegin();
             }
         }
@@ -252,12 +252,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cend();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cend();
             }
         }
@@ -265,12 +265,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cbegin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cbegin();
             }
         }
@@ -278,12 +278,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cend();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cend();
             }
         }
@@ -291,12 +291,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.begin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.begin();
             }
         }
@@ -304,12 +304,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.end();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.end();
             }
         }
-- 
2.43.0


From e363f2faeeba1890208ae343d68a6ee7509fefa5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 23:10:23 +0000
Subject: [PATCH 23/70] fix: adding and subtracting histograms can be
 instantiated and changes the left operand

---
 histogram.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/histogram.h b/histogram.h
index 24a0330..fa76c58 100644
--- a/histogram.h
+++ b/histogram.h
@@ -315,12 +315,12 @@ namespace TinyDIP
         }
 
         // += operator to add two Histograms
-        Histogram& operator+=(const Histogram& other) const
+        Histogram& operator+=(const Histogram& other)
         {
             if constexpr (is_dense)
             {
                 auto& get_result = std::get<std::vector<CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::vector<CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::vector<CountT>>(other.histogram);
                 if (get_result.size() != get_result_other.size())
                 {
                     throw std::runtime_error("Size mismatched for vector-based histograms!");
@@ -329,18 +329,15 @@ namespace TinyDIP
                 {
                     get_result[i] += get_result_other[i];
                 }
-                histogram = get_result;
-                
             }
             else
             {
                 auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
-                const auto get_result_other = std::get<const std::map<ElementT, CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::map<ElementT, CountT>>(other.histogram);
                 for (const auto& [key, value] : get_result_other)
                 {
                     get_result[key] += value;
                 }
-                histogram = get_result;
             }
             return *this;
         }
@@ -354,12 +351,12 @@ namespace TinyDIP
         }
 
         // -= operator to subtract two Histograms
-        Histogram& operator-=(const Histogram& other) const
+        Histogram& operator-=(const Histogram& other)
         {
             if constexpr (is_dense)
             {
                 auto& get_result = std::get<std::vector<CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::vector<CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::vector<CountT>>(other.histogram);
                 if (get_result.size() != get_result_other.size())
                 {
                     throw std::runtime_error("Size mismatched!");
@@ -376,12 +373,12 @@ namespace TinyDIP
                         result_data[i] = 0;
                     }
                 }
-                return Histogram<ElementT, CountT>{ result_data };
+                histogram = result_data;
             }
             else
             {
                 auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::map<ElementT, CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::map<ElementT, CountT>>(other.histogram);
                 std::map<ElementT, CountT> result_data = get_result;
                 for (const auto& [key, value] : get_result_other)
                 {
@@ -397,8 +394,9 @@ namespace TinyDIP
                         }
                     }
                 }
-                return Histogram<ElementT, CountT>{ result_data };
+                histogram = result_data;
             }
+            return *this;
         }
 
         // operator- (using operator-=)
-- 
2.43.0


From 4ff2d0d9a74934c5b29a23696ab7fba09085fadf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 23:10:23 +0000
Subject: [PATCH 24/70] fix: the probabilities of a sparse histogram, and with
 them otsu_threshold, can be instantiated

---
 histogram.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histogram.h b/histogram.h
index fa76c58..3b5d115 100644
--- a/histogram.h
+++ b/histogram.h
@@ -209,12 +209,13 @@ namespace TinyDIP
             }
             else
             {
-                std::vector<std::pair<ElementT, double>> probability_vector(size());
+                std::vector<std::pair<ElementT, FloatingType>> probability_vector;
+                probability_vector.reserve(size());
                 auto total_count = getCountSum(std::forward<ExecutionPolicy>(execution_policy));
                 for (const auto& [key, value] : *this)
                 {
                     probability_vector.emplace_back(
-                        { key, static_cast<FloatingType>(value) / static_cast<FloatingType>(total_count) });
+                        key, static_cast<FloatingType>(value) / static_cast<FloatingType>(total_count));
                 }
                 std::sort(std::forward<ExecutionPolicy>(execution_policy), probability_vector.begin(), probability_vector.end(),
                     [&](const auto& a, const auto& b) { return a.first < b.first; });
-- 
2.43.0


From ba2810cc7aa17b16e7d5d1ab7e4cced247393ff6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 23:11:45 +0000
Subject: [PATCH 25/70] fix: histogram_with_bins counts relative to the lowest
 value and ignores values out of range instead of writing past its bins

---
 image_operations.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 960ee88..a8cada5 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1353,7 +1353,11 @@ namespace TinyDIP
         auto image_data = input.getImageData();
         for (std::size_t i = 0; i < image_data.size(); ++i)
         {
-            std::size_t bin_index = std::floor((static_cast<double>(image_data[i]) * static_cast<double>(bins_count)) / (static_cast<double>(max) - static_cast<double>(lowest)));
+            if (image_data[i] < lowest || image_data[i] > max)
+            {
+                continue;
+            }
+            std::size_t bin_index = std::floor(((static_cast<double>(image_data[i]) - static_cast<double>(lowest)) * static_cast<double>(bins_count)) / (static_cast<double>(max) - static_cast<double>(lowest)));
             if (bin_index == bins_count)
             {
                 ++histogram_output[bins_count - 1];
-- 
2.43.0


From 5314777c100722112996a382fd2efe693bb932db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:41 +0000
Subject: [PATCH 26/70] fix: min and max of a multi-channel image cover all of
 its channels

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index a8cada5..1022636 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4351,7 +4351,7 @@ namespace TinyDIP
     requires ((std::same_as<ElementT, RGB>) || (std::same_as<ElementT, RGB_DOUBLE>) || (std::same_as<ElementT, HSV>) || is_MultiChannel<ElementT>::value)
     constexpr static auto min(const Image<ElementT>& input)
     {
-        return apply_each_single_output(3, input, [&](auto&& each_plane) { return min(each_plane); });
+        return apply_each_single_output(std::size(ElementT{}.channels), input, [&](auto&& each_plane) { return min(each_plane); });
     }
 
     //  max template function implementation
@@ -4366,7 +4366,7 @@ namespace TinyDIP
     requires ((std::same_as<ElementT, RGB>) || (std::same_as<ElementT, RGB_DOUBLE>) || (std::same_as<ElementT, HSV>) || is_MultiChannel<ElementT>::value)
     constexpr static auto max(const Image<ElementT>& input)
     {
-        return apply_each_single_output(3, input, [&](auto&& each_plane) { return max(each_plane); });
+        return apply_each_single_output(std::size(ElementT{}.channels), input, [&](auto&& each_plane) { return max(each_plane); });
     }
 
     //  minmax template function implementation
-- 
2.43.0


From 52623537bd54daaa1667561ac0d815afd342ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:42 +0000
Subject: [PATCH 27/70] fix: the euclidean distance between two ranges can be
 instantiated

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 1022636..4bfc492 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4152,7 +4152,7 @@ namespace TinyDIP
         using RealType = get_underlying_real_type_t<ValueType>;
         using PromotedType = std::conditional_t<std::is_floating_point_v<RealType>, RealType, double>;
 
-        const auto sq_dist = squared_euclidean_distance(std::forward<ExecutionPolicy>(execution_policy), range1, range2);
+        const auto sq_dist = squared_euclidean_distance{}(std::forward<ExecutionPolicy>(execution_policy), range1, range2);
         return std::sqrt(static_cast<PromotedType>(sq_dist));
     }
 
@@ -4173,7 +4173,7 @@ namespace TinyDIP
         using RealType = get_underlying_real_type_t<ValueType>;
         using PromotedType = std::conditional_t<std::is_floating_point_v<RealType>, RealType, double>;
 
-        const auto sq_dist = squared_euclidean_distance(range1, range2);
+        const auto sq_dist = squared_euclidean_distance{}(range1, range2);
         return std::sqrt(static_cast<PromotedType>(sq_dist));
     }
 
-- 
2.43.0


From b582111b7ae0034feec8dc6476730b509a4fdc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:42 +0000
Subject: [PATCH 28/70] fix: the mean of an integer image no longer wraps for
 small pixel types or negative sums

---
 image_operations.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 4bfc492..57ccbb7 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4327,7 +4327,14 @@ namespace TinyDIP
     requires(std::regular_invocable<F, ElementT, ElementT>)
     constexpr static auto mean(const Image<ElementT>& input, F f = {})
     {
-        return std::invoke(std::divides<>(), sum(input), input.count());
+        if constexpr (std::integral<ElementT>)
+        {
+            return mean(std::execution::seq, input, f);
+        }
+        else
+        {
+            return std::invoke(std::divides<>(), sum(input), input.count());
+        }
     }
 
     //  mean template function implementation
@@ -4336,7 +4343,17 @@ namespace TinyDIP
              std::regular_invocable<F, ElementT, ElementT>)
     constexpr static auto mean(ExecutionPolicy&& execution_policy, const Image<ElementT>& input, F f = {})
     {
-        return std::invoke(std::divides<>(), sum(std::forward<ExecutionPolicy>(execution_policy), input), input.count());
+        if constexpr (std::integral<ElementT>)
+        {
+            //  Neither the sum of small integers nor the division of a negative sum may wrap around
+            using SumT = std::conditional_t<std::is_signed_v<ElementT>, std::intmax_t, std::uintmax_t>;
+            auto image_data = input.getImageData();
+            return std::reduce(std::forward<ExecutionPolicy>(execution_policy), std::ranges::cbegin(image_data), std::ranges::cend(image_data), SumT{}, std::plus<SumT>()) / static_cast<SumT>(input.count());
+        }
+        else
+        {
+            return std::invoke(std::divides<>(), sum(std::forward<ExecutionPolicy>(execution_policy), input), input.count());
+        }
     }
 
     //  min template function implementation
-- 
2.43.0


From 7cdedb70eba8fc700e16fd95a69db3a619de1414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:17 +0000
Subject: [PATCH 29/70] fix: the euclidean distance of colour images no longer
 wraps negative differences of byte channels

---
 image_operations.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 57ccbb7..de3f2f3 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4232,9 +4232,18 @@ namespace TinyDIP
         const Image<ElementT2>& input2
         )
     {
+        if (input1.getSize() != input2.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
         return sqrt(execution_policy, two_input_map_reduce(std::forward<ExPo>(execution_policy), input1.getImageData(), input2.getImageData(), MultiChannel<double>{},
             [&](auto&& element1, auto&& element2) {
-                return pow(execution_policy, element1 - element2, 2.0);
+                MultiChannel<double> difference_element{};
+                for (std::size_t i = 0; i < difference_element.channels.size(); ++i)
+                {
+                    difference_element.channels[i] = static_cast<double>(element1.channels[i]) - static_cast<double>(element2.channels[i]);
+                }
+                return pow(execution_policy, difference_element, 2.0);
             }));
     }
 
-- 
2.43.0


From ef34133432edfb5b8d8a52b7ce37f1f9d70e0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:33 +0000
Subject: [PATCH 30/70] fix: the euclidean distance of multi-channel images
 refuses different shapes like the other overloads

---
 image_operations.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index de3f2f3..c16d6f5 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4260,6 +4260,10 @@ namespace TinyDIP
         const Image<MultiChannel<ElementT2, Size>>& input2
         )
     {
+        if (input1.getSize() != input2.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
         return sqrt(std::forward<ExPo>(execution_policy), two_input_map_reduce(std::forward<ExPo>(execution_policy), input1.getImageData(), input2.getImageData(), MultiChannel<ElementT1, Size>{},
             [&](auto&& element1, auto&& element2) {
                 return pow(execution_policy, element1 - element2, 2.0);
-- 
2.43.0


From 96e8a0eca769faf24fd7a3a9b19e34fa41576528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:49 +0000
Subject: [PATCH 31/70] fix: imgaussfilt with an odd filter size no longer
 shifts the image by one pixel

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index c16d6f5..db35a0a 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5685,14 +5685,14 @@ namespace TinyDIP
         );
         auto filter_mask_x = gaussianFigure1D(
                                     filter_size1,
-                                    (static_cast<double>(filter_size1) + 1.0) / 2.0,
+                                    static_cast<std::size_t>(filter_size1) / 2,
                                     sigma1);
         auto sum_result = sum(std::forward<ExecutionPolicy>(execution_policy), filter_mask_x);
         filter_mask_x = divides(filter_mask_x, sum_result);             //  Normalization
         auto output = conv2(padded_image, filter_mask_x, true);
         auto filter_mask_y = transpose(std::forward<ExecutionPolicy>(execution_policy), gaussianFigure1D(
                                         filter_size2,
-                                        (static_cast<double>(filter_size2) + 1.0) / 2.0,
+                                        static_cast<std::size_t>(filter_size2) / 2,
                                         sigma2));
         sum_result = sum(filter_mask_y);
         filter_mask_y = divides(filter_mask_y, sum_result);             //  Normalization
-- 
2.43.0


From f3c6eba98b6bf226e690880b4ff58ae58531201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:49 +0000
Subject: [PATCH 32/70] fix: the bilateral filter also weighs the pixels before
 the centre of the window

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index db35a0a..cfecffe 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6086,7 +6086,7 @@ namespace TinyDIP
                             double sum_of_squares = 0.0;
                             for (std::size_t i = 0; i < vector1.size(); i++)
                             {
-                                sum_of_squares += std::pow(vector1[i] - vector2[i], 2.0);
+                                sum_of_squares += std::pow(static_cast<double>(vector1[i]) - static_cast<double>(vector2[i]), 2.0);
                             }
                             return std::sqrt(sum_of_squares);
                         }
-- 
2.43.0


From eea6b31579d345f2f96ba08b55db7d39a1c4a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:49 +0000
Subject: [PATCH 33/70] fix: windowed_filter takes every window from the input
 instead of from a partly filtered image

---
 image_operations.h | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index cfecffe..3bf07aa 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5864,6 +5864,8 @@ namespace TinyDIP
                 value_for_constant_padding
             );
         }
+        //  Every window is taken from the unfiltered image, so the results are kept apart from it
+        auto output = input;
         // Iterate over all elements in the original image
         const std::size_t total_elements = input.count();
         #ifndef USE_OPENMP
@@ -5896,8 +5898,7 @@ namespace TinyDIP
             );
 
             // Apply filter and store result
-            padded_image.at(padded_indices) =
-                std::invoke(filter, window);
+            output.set(idx) = std::invoke(filter, window);
 
             // Progress reporting
             if (progress_callback) {
@@ -5944,18 +5945,9 @@ namespace TinyDIP
             );
 
             // Apply filter and store result
-            padded_image.at_without_boundary_check(padded_indices) =
-                std::invoke(filter, window);
+            output.set(idx) = std::invoke(filter, window);
         }
         #endif
-        // Crop padded image to original size
-        std::vector<std::size_t> original_sizes = input.getSize();
-        std::vector<std::size_t> centers;
-        for (auto& s : padded_image.getSize())
-        {
-            centers.emplace_back(s / 2);  // Center of padded image
-        }
-        auto output = subimage(std::forward<ExecutionPolicy>(execution_policy), padded_image, original_sizes, centers);
         return output;
     }
 
-- 
2.43.0


From f1e7e962afe61bd04671d70e98b0a79e350a8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:18 +0000
Subject: [PATCH 34/70] fix: the bilateral filter can be instantiated with
 window sizes given as int

---
 image_operations.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 3bf07aa..3f6070b 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6020,7 +6020,8 @@ namespace TinyDIP
         const SpatialDistance spatial_distance
         )
     {
-        Image<FloatingType> output(window_sizes);
+        const std::vector<std::size_t> output_sizes(std::ranges::begin(window_sizes), std::ranges::end(window_sizes));
+        Image<FloatingType> output(output_sizes);
         const auto& center_location = get_center_location(std::execution::seq, output);
         const std::size_t total_elements = output.count();
         for (std::size_t idx = 0; idx < total_elements; ++idx)
-- 
2.43.0


From 30e3ae00f07d97131c80afd0427f9abb71d8568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:53 +0000
Subject: [PATCH 35/70] fix: jacobi_eigen_solver performs the given number of
 sweeps, not rotations, so that it converges for 9x9 systems

---
 linear_algebra.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_algebra.h b/linear_algebra.h
index f5d3d16..fce9d16 100644
--- a/linear_algebra.h
+++ b/linear_algebra.h
@@ -154,7 +154,9 @@ namespace linalg
             eigenvectors.at(i, i) = 1.0;
         }
         
-        for (int iter = 0; iter < max_iterations; ++iter)
+        // One sweep consists of as many rotations as there are elements above the diagonal
+        const std::size_t max_rotations = (max_iterations > 0) ? static_cast<std::size_t>(max_iterations) * (n * (n - 1) / 2) : 0;
+        for (std::size_t iter = 0; iter < max_rotations; ++iter)
         {
             // Find the largest off-diagonal element
             ElementT max_val = 0.0;
-- 
2.43.0


From a13dff537c45b89533bbc2dfa983d83eae10aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:54 +0000
Subject: [PATCH 36/70] fix: create_stitched_image without execution policy
 shifts the canvas, not the second image, when content lies left of or above
 the first

---
 image_operations.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 3f6070b..4796d7f 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -8153,13 +8153,14 @@ namespace TinyDIP
         const std::size_t out_width = static_cast<std::size_t>(std::ceil(max_x - min_x));
         const std::size_t out_height = static_cast<std::size_t>(std::ceil(max_y - min_y));
 
+        //  From the canvas back to img1's coordinate frame
         linalg::Matrix<FloatingType> H_trans(3,3);
-        H_trans.at(0,0) = 1; H_trans.at(0,1) = 0; H_trans.at(0,2) = trans_x;
-        H_trans.at(1,0) = 0; H_trans.at(1,1) = 1; H_trans.at(1,2) = trans_y;
+        H_trans.at(0,0) = 1; H_trans.at(0,1) = 0; H_trans.at(0,2) = -trans_x;
+        H_trans.at(1,0) = 0; H_trans.at(1,1) = 1; H_trans.at(1,2) = -trans_y;
         H_trans.at(2,0) = 0; H_trans.at(2,1) = 0; H_trans.at(2,2) = 1;
 
-        // Combine translation with the original homography
-        auto H_final = linalg::multiply(H_trans, H_in);
+        // Combine translation with the original homography (reverse mapping: canvas -> img1 -> img2)
+        auto H_final = linalg::multiply(H_in, H_trans);
 
         // 2. Warp img2 to align with img1's coordinate frame
         std::cout << "Warping image 2...\n";
-- 
2.43.0


From d6dbb277c8e8cdd56321f6c1c6d8ab3ecafedb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:35 +0000
Subject: [PATCH 37/70] fix: the width of an empty image is zero instead of an
 access past its sizes

---
 image.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image.h b/image.h
index 78f12d9..4f6513b 100644
--- a/image.h
+++ b/image.h
@@ -396,7 +396,7 @@ namespace TinyDIP
 
         constexpr std::size_t getWidth() const noexcept
         {
-            return size[0];
+            return (getDimensionality() > 0) ? size[0] : 0;
         }
 
         constexpr std::size_t getHeight() const noexcept
-- 
2.43.0


From 304e0357a94a6e10414ac251af4540a50cebb0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:32 +0000
Subject: [PATCH 38/70] fix: copyResizeBicubic refuses images that are not
 two-dimensional instead of ending the program in its parallel loop

---
 image_operations.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 4796d7f..6641de8 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2321,6 +2321,10 @@ namespace TinyDIP
     template<class FloatingType = float, arithmetic ElementT>
     static Image<ElementT> copyResizeBicubic(const Image<ElementT>& image, const std::size_t width, const std::size_t height)
     {
+        if (image.getDimensionality() != 2)
+        {
+            throw std::runtime_error("Unsupported dimension!");
+        }
         Image<ElementT> output(width, height);
         //  get used to the C++ way of casting
         const auto ratiox = static_cast<FloatingType>(image.getWidth()) / static_cast<FloatingType>(width);
-- 
2.43.0


From 6955d743be1dbd4341d5dadf76f2bb0a320d37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:32 +0000
Subject: [PATCH 39/70] fix: dct2 and idct2 refuse images that are not
 two-dimensional instead of ending the program in their parallel loop

---
 image_operations.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 6641de8..2723293 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -3834,6 +3834,10 @@ namespace TinyDIP
     template<arithmetic ElementT = double, arithmetic OutputT = ElementT>
     constexpr static auto dct2(const Image<ElementT>& input)
     {
+        if (input.getDimensionality() != 2)
+        {
+            throw std::runtime_error("Unsupported dimension!");
+        }
         using ComputeT = std::conditional_t<is_complex_data_v<ElementT>, std::complex<double>, double>;
         std::vector v{ input.template cast<ComputeT>() };
         return dct3_one_plane(v, 0);
@@ -3851,6 +3855,10 @@ namespace TinyDIP
     template<arithmetic ElementT = double, arithmetic OutputT = ElementT>
     constexpr static auto idct2(Image<ElementT> input)
     {
+        if (input.getDimensionality() != 2)
+        {
+            throw std::runtime_error("Unsupported dimension!");
+        }
         using ComputeT = std::conditional_t<is_complex_data_v<ElementT>, std::complex<double>, double>;
         std::vector v{ input.template cast<ComputeT>() };
         return idct3_one_plane(v, 0);
-- 
2.43.0


From cf11d19c094fc7370dd2bb510aa2965cbc290499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:32 +0000
Subject: [PATCH 40/70] fix: the count command reports the count of an image
 instead of a bad any_cast

---
 main.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.h b/main.h
index d1a7c87..4df5cbc 100644
--- a/main.h
+++ b/main.h
@@ -2080,7 +2080,7 @@ namespace handlers
                     {
                         if constexpr (TinyDIP::is_Image<DecayedT>::value && requires { TinyDIP::count(std::forward<DataT>(data), std::forward<TargetT>(target_val)); })
                         {
-                            return TinyDIP::count(std::forward<DataT>(data), std::forward<TargetT>(target_val));
+                            return static_cast<std::size_t>(TinyDIP::count(std::forward<DataT>(data), std::forward<TargetT>(target_val)));
                         }
                         else if constexpr (std::ranges::input_range<DecayedT> && requires { std::ranges::count(std::forward<DataT>(data), std::forward<TargetT>(target_val)); })
                         {
@@ -2098,7 +2098,7 @@ namespace handlers
                     {
                         if constexpr (TinyDIP::is_Image<DecayedT>::value && requires { TinyDIP::count(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), std::forward<TargetT>(target_val)); })
                         {
-                            return TinyDIP::count(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), std::forward<TargetT>(target_val));
+                            return static_cast<std::size_t>(TinyDIP::count(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), std::forward<TargetT>(target_val)));
                         }
                         else if constexpr (std::ranges::input_range<DecayedT> && requires { std::count(std::forward<ExecPolicy>(exec_policy), std::ranges::begin(data), std::ranges::end(data), std::forward<TargetT>(target_val)); })
                         {
-- 
2.43.0


From 1db2c6f29e12236b5c077b55fe64febcd04ebe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:32 +0000
Subject: [PATCH 41/70] fix: the multiply command with an execution policy
 gives the result it gives without, instead of ending the program for colour
 images

---
 main.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/main.h b/main.h
index 4df5cbc..c231377 100644
--- a/main.h
+++ b/main.h
@@ -3949,6 +3949,14 @@ namespace handlers
                             {
                                 return TinyDIP::multiplies(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), scalar_val);
                             }
+                            else if constexpr (!TinyDIP::is_bool_data_v<DecayedDataT> && !TinyDIP::is_complex_data_v<DecayedDataT> && requires { TinyDIP::multiplies(std::forward<DataT>(data), scalar_val); })
+                            {
+                                if (!std::ranges::empty(policy_str))
+                                {
+                                    os << "Warning: Execution policy requested but not supported for this image type/operation. Falling back to default.\n";
+                                }
+                                return exec_default();
+                            }
                             else if constexpr (requires { TinyDIP::pixelwise_transform(std::forward<ExecPolicy>(exec_policy), mult_op, std::forward<DataT>(data)); })
                             {
                                 return TinyDIP::pixelwise_transform(std::forward<ExecPolicy>(exec_policy), mult_op, std::forward<DataT>(data));
-- 
2.43.0


From 7c0e15b860a4740bf35613c29e0c425912725511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:32 +0000
Subject: [PATCH 42/70] fix: renaming a workspace variable to its own name
 keeps it

---
 main.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main.h b/main.h
index c231377..92b5508 100644
--- a/main.h
+++ b/main.h
@@ -421,8 +421,13 @@ struct Workspace
         const std::string old_key(sanitize_string_view(old_name));
         if (auto it = memory_store.find(old_key); it != std::ranges::end(memory_store))
         {
+            const std::string new_key(sanitize_string_view(new_name));
+            if (new_key == old_key)
+            {
+                return true;
+            }
             //  Use std::move to natively transfer ownership of the type-erased object with zero-copy
-            memory_store[std::string(sanitize_string_view(new_name))] = std::move(it->second);
+            memory_store[new_key] = std::move(it->second);
             memory_store.erase(it);
             return true;
         }
-- 
2.43.0


From de564f0c53181523a4d7fa9c8eea712522605874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:32 +0000
Subject: [PATCH 43/70] fix: the pipeline optimizer does not turn commands on
 files into copies nor drop a variable named by the user

---
 main.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/main.h b/main.h
index 92b5508..ab589a4 100644
--- a/main.h
+++ b/main.h
@@ -1056,10 +1056,11 @@ public:
                     
                     auto [ptr, ec] = std::from_chars(clean_factor.data(), clean_factor.data() + std::ranges::size(clean_factor), factor_val);
                     
-                    if (ec == std::errc() && factor_val == 1.0)
+                    auto [cmd1_in, cmd1_out] = get_io(cmd1);
+                    
+                    // Only memory variables can be copied, files still need to be read or written
+                    if (ec == std::errc() && factor_val == 1.0 && cmd1_in.starts_with('$') && cmd1_out.starts_with('$'))
                     {
-                        auto [cmd1_in, cmd1_out] = get_io(cmd1);
-                        
                         os << "  [Peephole Optimizer] Detected Identity operation: 'multiply' by 1.0.\n";
                         os << "  [Peephole Optimizer] Downgrading to zero-overhead 'copy'.\n";
                         
@@ -1083,8 +1084,10 @@ public:
                     if (!cmd1_out.empty() && cmd1_out == cmd2_in)
                     {
                         // A. Inverses
-                        if ((cmd1.name == "dct2" && cmd2.name == "idct2") ||
-                            (cmd1.name == "idct2" && cmd2.name == "dct2"))
+                        //    (only through a temporary, a variable of the user keeps its value; only memory variables can be copied)
+                        if (((cmd1.name == "dct2" && cmd2.name == "idct2") ||
+                             (cmd1.name == "idct2" && cmd2.name == "dct2")) &&
+                            cmd1_out.starts_with("$__pipe_") && cmd1_in.starts_with('$') && cmd2_out.starts_with('$'))
                         {
                             os << "  [Peephole Optimizer] Detected redundant inverse chain: '" << cmd1.name << "' -> '" << cmd2.name << "'.\n";
                             os << "  [Peephole Optimizer] Collapsing chain into zero-overhead 'copy' (" << cmd1_in << " -> " << cmd2_out << ").\n";
-- 
2.43.0


From 5ba480269c51ef8e99e9f58882f443f45fb4e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 44/70] fix: zeros, ones, grid and gaussian_figure_2d can start
 a pipeline, their output is their first argument

---
 main.cpp | 8 ++++----
 main.h   | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/main.cpp b/main.cpp
index 7bc1ecf..7b96d09 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1496,7 +1496,7 @@ int main(int argc, char* argv[])
                 handlers::erase_element(workspace, args, os);
             }
         },
-        CommandBundle{"gaussian_figure_2d", "Generate a 2D Gaussian figure image.", GeneratorSchema, 
+        CommandBundle{"gaussian_figure_2d", "Generate a 2D Gaussian figure image.", OutputFirstGeneratorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::gaussian_figure_2d(workspace, args, os);
@@ -1532,7 +1532,7 @@ int main(int argc, char* argv[])
                 handlers::get_sift_potential_keypoint(workspace, args, os);
             }
         },
-        CommandBundle{"grid", "Generate a grid image.", GeneratorSchema, 
+        CommandBundle{"grid", "Generate a grid image.", OutputFirstGeneratorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::grid_generator(workspace, args, os);
@@ -1574,7 +1574,7 @@ int main(int argc, char* argv[])
                 handlers::normalize(workspace, args, os);
             }
         },
-        CommandBundle{"ones", "Generate an image filled with ones.", GeneratorSchema, 
+        CommandBundle{"ones", "Generate an image filled with ones.", OutputFirstGeneratorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::ones(workspace, args, os);
@@ -1628,7 +1628,7 @@ int main(int argc, char* argv[])
                 handlers::write(workspace, args, os);
             }
         },
-        CommandBundle{"zeros", "Generate an image filled with zeros.", GeneratorSchema, 
+        CommandBundle{"zeros", "Generate an image filled with zeros.", OutputFirstGeneratorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::zeros(workspace, args, os);
diff --git a/main.h b/main.h
index ab589a4..fb45739 100644
--- a/main.h
+++ b/main.h
@@ -801,6 +801,7 @@ struct IOSchema
 
 //  Define human-readable pipeline schema routing constants globally
 constexpr auto GeneratorSchema = IOSchema{ -1, 1 };
+constexpr auto OutputFirstGeneratorSchema = IOSchema{ -1, 0 };
 constexpr auto TerminatorSchema = IOSchema{ 0, -1 };
 constexpr auto TransformerSchema = IOSchema{ 0, 1 };
 constexpr auto CombinerSchema = IOSchema{ 0, 2 };
-- 
2.43.0


From b91838b56123c9ec9b00dad6e0f392897fc9b96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 45/70] fix: a pipeline whose stage fails no longer goes on
 with the temporary of an earlier pipeline

---
 main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.cpp b/main.cpp
index 7b96d09..e5994ee 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1307,6 +1307,12 @@ void run_interactive_mode(Workspace& workspace, const CommandRegistry& registry,
 
             registry.execute(workspace, cmd.name, args_sv, os);
         }
+
+        // Drop the temporaries, a later pipeline whose stage fails must not go on with a stale one
+        for (std::size_t i = 0; i < std::ranges::size(segments_tokens); ++i)
+        {
+            workspace.remove("__pipe_" + std::to_string(i));
+        }
     }
 }
 
-- 
2.43.0


From 471bfeca98776499b472bb234831776cbb579543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 46/70] fix: transform_container reports a failing command
 instead of ending the program, and leaves no temporaries behind

---
 main.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/main.h b/main.h
index fb45739..7c2f966 100644
--- a/main.h
+++ b/main.h
@@ -4845,6 +4845,8 @@ namespace handlers
                         registry.execute(workspace, std::string(cmd_name), local_args_sv, ss);
                         
                         auto out_any = workspace.retrieve_any(temp_out);
+                        workspace.remove(temp_in);
+                        workspace.remove(temp_out);
                         if (out_any.has_value())
                         {
                             result_anys[idx] = out_any.value();
@@ -4854,8 +4856,6 @@ namespace handlers
                             throw std::runtime_error("Command failed to produce output variable: $" + temp_out + "\nLog: " + ss.str());
                         }
                         
-                        workspace.remove(temp_in);
-                        workspace.remove(temp_out);
                         ++idx;
                     }
                     return std::any{};
@@ -4865,6 +4865,8 @@ namespace handlers
                     requires std::is_execution_policy_v<std::remove_cvref_t<ExecPolicy>>
                 {
                     std::vector<typename DecayedT::value_type> elements(std::ranges::begin(candidate), std::ranges::end(candidate));
+                    // An exception must not leave a parallel algorithm, collect the failures and report the first one afterwards
+                    std::vector<std::string> failures(total_elements);
                     auto indices = std::views::iota(std::size_t{0}, total_elements);
                     
                     std::for_each(
@@ -4906,13 +4908,20 @@ namespace handlers
                             }
                             else
                             {
-                                throw std::runtime_error("Command failed to produce output variable: $" + temp_out + "\nLog: " + ss.str());
+                                failures[idx] = "Command failed to produce output variable: $" + temp_out + "\nLog: " + ss.str();
                             }
                             
                             workspace.remove(temp_in);
                             workspace.remove(temp_out);
                         }
                     );
+                    for (const auto& failure : failures)
+                    {
+                        if (!std::ranges::empty(failure))
+                        {
+                            throw std::runtime_error(failure);
+                        }
+                    }
                     return std::any{};
                 };
 
-- 
2.43.0


From 43bb07bae07248c95c2a463a308873f4a46cfbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 47/70] fix: the grid command refuses a cell size of zero
 instead of dividing by it

---
 main.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.h b/main.h
index 7c2f966..27a896a 100644
--- a/main.h
+++ b/main.h
@@ -2978,6 +2978,10 @@ namespace handlers
         {
             grid_size = parse_arg<std::size_t>(filtered_args[3]);
         }
+        if (grid_size == 0)
+        {
+            throw std::invalid_argument("The grid size must be positive.");
+        }
 
         if (!std::ranges::empty(policy_str))
         {
-- 
2.43.0


From 643cccbd820086a748e79635d7ec185e9f079a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:13 +0000
Subject: [PATCH 48/70] fix: the subimage command refuses offsets whose sum
 with the size overflows and images that are not two-dimensional, which ended
 the program with an execution policy

---
 main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index e5994ee..a16c5e0 100644
--- a/main.cpp
+++ b/main.cpp
@@ -802,7 +802,13 @@ namespace handlers
                     // Mathematically guarantee the type is a 2D matrix/image
                     if constexpr (requires { img.getWidth(); img.getHeight(); img.at(0, 0); })
                     {
-                        if (x_offset + sub_width > img.getWidth() || y_offset + sub_height > img.getHeight())
+                        if (img.getDimensionality() != 2)
+                        {
+                            throw std::invalid_argument("Subimage extraction needs a two-dimensional image.");
+                        }
+
+                        if (x_offset > img.getWidth() || sub_width > img.getWidth() - x_offset ||
+                            y_offset > img.getHeight() || sub_height > img.getHeight() - y_offset)
                         {
                             throw std::out_of_range("Subimage bounds exceed original image dimensions.");
                             return std::any{};
-- 
2.43.0


From 8eedec149789a01d78a919889f9ce69a60a1d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:24 +0000
Subject: [PATCH 49/70] fix: the constructRGB command refuses planes that are
 not two-dimensional, which ended the program with an execution policy

---
 main.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.h b/main.h
index 27a896a..6675090 100644
--- a/main.h
+++ b/main.h
@@ -1964,6 +1964,11 @@ namespace handlers
                         const std::size_t width = img_r.getWidth();
                         const std::size_t height = img_r.getHeight();
 
+                        if (img_r.getDimensionality() != 2 || img_g.getDimensionality() != 2 || img_b.getDimensionality() != 2)
+                        {
+                            throw std::invalid_argument("R / G / B plane images must be two-dimensional.");
+                        }
+
                         if (width != img_g.getWidth() || height != img_g.getHeight() ||
                             width != img_b.getWidth() || height != img_b.getHeight())
                         {
-- 
2.43.0


From 6925b9a4ca5c4d8d418f414026c1249beb4f95e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:55 +0000
Subject: [PATCH 50/70] fix: an execution policy before the input of the first
 pipeline stage no longer displaces the variable handed to the next stage

---
 main.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/main.cpp b/main.cpp
index a16c5e0..4c5353e 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1278,17 +1278,30 @@ void run_interactive_mode(Workspace& workspace, const CommandRegistry& registry,
                 args_str.emplace_back(tokens[j]);
             }
 
+            // Execution policies may stand anywhere and do not count for the argument index
+            auto find_insert_pos = [&args_str](const int argument_index)
+            {
+                constexpr std::array<std::string_view, 4> policies = {"seq", "par", "par_unseq", "unseq"};
+                auto it = std::ranges::begin(args_str);
+                for (int count = 0; it != std::ranges::end(args_str); ++it)
+                {
+                    if (!match_any(*it, policies) && count++ == argument_index)
+                    {
+                        break;
+                    }
+                }
+                return it;
+            };
+
             // Inject intermediate variables into the correct argument index
             if (schema.in_idx != -1 && !std::ranges::empty(prev_pipe_var))
             {
-                const int insert_pos = std::min(schema.in_idx, static_cast<int>(std::ranges::size(args_str)));
-                args_str.insert(std::ranges::begin(args_str) + insert_pos, prev_pipe_var);
+                args_str.insert(find_insert_pos(schema.in_idx), prev_pipe_var);
             }
 
             if (schema.out_idx != -1 && !std::ranges::empty(next_pipe_var))
             {
-                const int insert_pos = std::min(schema.out_idx, static_cast<int>(std::ranges::size(args_str)));
-                args_str.insert(std::ranges::begin(args_str) + insert_pos, next_pipe_var);
+                args_str.insert(find_insert_pos(schema.out_idx), next_pipe_var);
             }
 
             execution_pipeline.push_back({command_name, std::move(args_str)});
-- 
2.43.0


From 3b5a818997342ce6d5cda8863e1287317567cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:05 +0000
Subject: [PATCH 51/70] fix: comparing the sizes of volumes, and with it their
 arithmetic, can be instantiated

---
 cube_operations.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cube_operations.h b/cube_operations.h
index bce1bc7..69b3ec4 100644
--- a/cube_operations.h
+++ b/cube_operations.h
@@ -18,7 +18,7 @@ namespace TinyDIP
     template<typename ElementT>
     constexpr bool is_width_same(const VolumetricImage<ElementT>& x, const VolumetricImage<ElementT>& y)
     {
-        return x.getSizeX() == y.getSizeX();
+        return x.getWidth() == y.getWidth();
     }
 
     template<typename ElementT>
@@ -30,7 +30,7 @@ namespace TinyDIP
     template<typename ElementT>
     constexpr bool is_height_same(const VolumetricImage<ElementT>& x, const VolumetricImage<ElementT>& y)
     {
-        return x.getSizeY() == y.getSizeY();
+        return x.getHeight() == y.getHeight();
     }
     
     template<typename ElementT>
@@ -42,7 +42,7 @@ namespace TinyDIP
     template<typename ElementT>
     constexpr bool is_depth_same(const VolumetricImage<ElementT>& x, const VolumetricImage<ElementT>& y)
     {
-        return x.getSizeZ() == y.getSizeZ();
+        return x.getDepth() == y.getDepth();
     }
 
     template<typename ElementT>
-- 
2.43.0


From 836974dafd2fadd96123d22e1ac82de152f395b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:05 +0000
Subject: [PATCH 52/70] fix: volume arithmetic rejects operands of different
 sizes instead of reading past the shorter one

---
 cube_operations.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cube_operations.h b/cube_operations.h
index 69b3ec4..68f22ea 100644
--- a/cube_operations.h
+++ b/cube_operations.h
@@ -189,7 +189,9 @@ namespace TinyDIP
     template<class InputT, class... Args>
     constexpr static VolumetricImage<InputT> plus(const VolumetricImage<InputT>& input1, const Args&... inputs)
     {
-        return voxelwiseOperation(std::plus<>{}, input1, plus(inputs...));
+        const auto rest = plus(inputs...);
+        check_size_same(input1, rest);
+        return voxelwiseOperation(std::plus<>{}, input1, rest);
     }
 
     template<class InputT, class... Args>
@@ -225,6 +227,7 @@ namespace TinyDIP
     template<class InputT>
     constexpr static VolumetricImage<InputT> multiplies(const VolumetricImage<InputT>& input1, const VolumetricImage<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return voxelwiseOperation(std::multiplies<>{}, input1, input2);
     }
 
@@ -255,6 +258,7 @@ namespace TinyDIP
     template<class InputT>
     constexpr static VolumetricImage<InputT> divides(const VolumetricImage<InputT>& input1, const VolumetricImage<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return voxelwiseOperation(std::divides<>{}, input1, input2);
     }
 
@@ -279,6 +283,7 @@ namespace TinyDIP
     template<class InputT>
     constexpr static VolumetricImage<InputT> modulus(const VolumetricImage<InputT>& input1, const VolumetricImage<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return voxelwiseOperation(std::modulus<>{}, input1, input2);
     }
 
-- 
2.43.0


From 1abd700aadad119e4dea8892a2ee63492d4bd03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:05 +0000
Subject: [PATCH 53/70] fix: a default-constructed volume has size zero instead
 of uninitialised sizes

---
 cube.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cube.h b/cube.h
index 83f9f79..758e52a 100644
--- a/cube.h
+++ b/cube.h
@@ -182,9 +182,9 @@ namespace TinyDIP
         }
         
     private:
-        std::size_t width;
-        std::size_t height;
-        std::size_t depth;
+        std::size_t width{};
+        std::size_t height{};
+        std::size_t depth{};
         std::vector<ElementT> data;
         
         void checkBoundary(const size_t x, const size_t y, const size_t z) const
-- 
2.43.0


From 7a15b5953cd765c207e53bffa7da3e994df7c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:05 +0000
Subject: [PATCH 54/70] fix: a volume is not constructed from an empty list or
 from images of different sizes

---
 cube.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cube.h b/cube.h
index 758e52a..24d7e2e 100644
--- a/cube.h
+++ b/cube.h
@@ -53,6 +53,17 @@ namespace TinyDIP
 
         VolumetricImage(const std::vector<Image<ElementT>>& input)
         {
+            if (input.empty())
+            {
+                throw std::runtime_error("A volume cannot be constructed from an empty list of images!");
+            }
+            for (const auto& element : input)
+            {
+                if (element.getSize() != input[0].getSize())
+                {
+                    throw std::runtime_error("The images of a volume must have the same size!");
+                }
+            }
             width = input[0].getWidth();
             height = input[0].getHeight();
             depth = input.size();
-- 
2.43.0


From 75a22fbf5bceeb45431ed3e0ee262331614cb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:35 +0000
Subject: [PATCH 55/70] fix: population_standard_deviation without an execution
 policy can be instantiated

---
 basic_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic_functions.h b/basic_functions.h
index 5f917f1..f807d97 100644
--- a/basic_functions.h
+++ b/basic_functions.h
@@ -1574,7 +1574,7 @@ namespace TinyDIP
     requires (can_calculate_variance_of<recursive_iter_value_t<Container>>)
     constexpr auto population_standard_deviation(const Container& input)
     {
-        return population_standard_deviation(std::execution::par, input);
+        return std::pow(population_variance<T>(input), 0.5);
     }
 
     //  population_standard_deviation template function implementation
-- 
2.43.0


From 8ff46b7505ba421847bdb4bc7f3c44221dc5c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:25 +0000
Subject: [PATCH 56/70] fix: recursive_count_if and batch_recursive_count_if
 can be called, a duplicate overload made every call ambiguous

---
 basic_functions.h | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/basic_functions.h b/basic_functions.h
index f807d97..8bb8e1a 100644
--- a/basic_functions.h
+++ b/basic_functions.h
@@ -742,23 +742,6 @@ namespace TinyDIP
             });
     }
 
-    //  recursive_count_if implementation (the version with unwrap_level)
-    template<std::size_t unwrap_level = 1, std::ranges::range T, class Pred>
-    requires(unwrap_level <= recursive_depth<T>())
-    constexpr auto recursive_count_if(const T& input, const Pred& predicate)
-    {
-        if constexpr (unwrap_level > 1)
-        {
-            return std::transform_reduce(std::ranges::cbegin(input), std::ranges::cend(input), std::size_t{}, std::plus<std::size_t>(), [predicate](auto&& element) {
-                return recursive_count_if<unwrap_level - 1>(element, predicate);
-                });
-        }
-        else
-        {
-            return std::count_if(std::ranges::cbegin(input), std::ranges::cend(input), predicate);
-        }
-    }
-
     //  batch_recursive_count_if implementation (the version with unwrap_level)
     template<std::size_t unwrap_level = 1, std::ranges::range T, class Pred1>
     requires(unwrap_level <= recursive_depth<T>())
-- 
2.43.0


From 71f194574d29404fa28b105ce18bea540b5c51e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:21 +0000
Subject: [PATCH 57/70] fix: zeros of a list of int sizes makes an image of
 that size instead of taking the sizes for pixels

---
 image_operations.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 2723293..874afd4 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -303,7 +303,8 @@ namespace TinyDIP
              (std::same_as<std::ranges::range_value_t<Sizes>, int>)
     constexpr static auto zeros(const Sizes& input)
     {
-        return Image<ElementT>(input);
+        const std::vector<std::size_t> sizes(std::ranges::cbegin(input), std::ranges::cend(input));
+        return Image<ElementT>(sizes);
     }
 
     //  ones template function implementation
-- 
2.43.0


From f22b6348f0ea97735c0f6ad68bdaacb64e4bd6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:43 +0000
Subject: [PATCH 58/70] fix: draw_point near the left or top border draws the
 visible part of the point instead of nothing

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 874afd4..cbec760 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6260,9 +6260,9 @@ namespace TinyDIP
         auto height = input.getHeight();
         auto width = input.getWidth();
         #pragma omp parallel for collapse(2)
-        for (std::size_t y = point_y - radius; y <= point_y + radius; ++y)
+        for (std::size_t y = (point_y > radius) ? (point_y - radius) : 0; y <= point_y + radius; ++y)
         {
-            for (std::size_t x = point_x - radius; x <= point_x + radius; ++x)
+            for (std::size_t x = (point_x > radius) ? (point_x - radius) : 0; x <= point_x + radius; ++x)
             {
                 if (x >= width || y >= height)
                 {
-- 
2.43.0


From 7c43f605162879ce1081f1f41ccec1f651421de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:58 +0000
Subject: [PATCH 59/70] fix: keypoint_refinement multiplies by the inverse
 Hessian, its diagonal entries were exchanged

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index cbec760..d8bc8c5 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6712,10 +6712,10 @@ namespace TinyDIP
             const ElementT second_derivative_x = (input.at(std::size_t{ 2 }, std::size_t{ 1 }) + input.at(std::size_t{ 0 }, std::size_t{ 1 }) - 2.0 * input.at(std::size_t{ 1 }, std::size_t{ 1 }));
             const ElementT second_derivative_y = (input.at(std::size_t{ 1 }, std::size_t{ 2 }) + input.at(std::size_t{ 1 }, std::size_t{ 0 }) - 2.0 * input.at(std::size_t{ 1 }, std::size_t{ 1 }));
             const ElementT second_derivative_xy = (input.at(std::size_t{ 2 }, std::size_t{ 2 }) - input.at(std::size_t{ 2 }, std::size_t{ 0 }) - input.at(std::size_t{ 0 }, std::size_t{ 2 }) + input.at(std::size_t{ 0 }, std::size_t{ 0 })) / 4.0;
-            const ElementT A = -second_derivative_x / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
+            const ElementT A = -second_derivative_y / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
             const ElementT B = second_derivative_xy / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
             const ElementT C = B;
-            const ElementT D = -second_derivative_y / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
+            const ElementT D = -second_derivative_x / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
             const ElementT offset_x = A * first_derivative_x + B * first_derivative_y;
             const ElementT offset_y = C * first_derivative_x + D * first_derivative_y;
             return std::make_tuple(
-- 
2.43.0


From aebb787e67a6e19411e471f830482838dd3dc7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:58 +0000
Subject: [PATCH 60/70] fix: find_local_extrema appends to its result from one
 thread at a time

---
 image_operations.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index d8bc8c5..c450c86 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6811,6 +6811,7 @@ namespace TinyDIP
                         if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold) && keypoint_filtering(subimage2, contrast_check_threshold, edge_response_threshold))
                         {
                             auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
+                            #pragma omp critical
                             output.emplace_back(
                                 std::make_tuple(
                                     octave_index,
@@ -6824,6 +6825,7 @@ namespace TinyDIP
                         if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold))
                         {
                             auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
+                            #pragma omp critical
                             output.emplace_back(
                                 std::make_tuple(
                                     octave_index,
-- 
2.43.0


From 9377d8fcfd20dcd316910a487767d6621b5fb490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:58 +0000
Subject: [PATCH 61/70] fix: get_potential_keypoint stops at the octaves the
 image is large enough for

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index c450c86..a7f1fb2 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -7001,7 +7001,7 @@ namespace TinyDIP
             {
                 // SERIAL VERSION (for std::execution::seq)
                 // No OpenMP, just plain loops.
-                for (int octave_index = 0; octave_index < octaves_count; ++octave_index)
+                for (int octave_index = 0; octave_index < static_cast<int>(octaves.size()); ++octave_index)
                 {
                     auto each_octave = octaves[octave_index];
                     for (int scale_index = 0; scale_index < each_octave.size() - 2; ++scale_index)
@@ -7033,7 +7033,7 @@ namespace TinyDIP
             {
                 // PARALLEL VERSION (for std::execution::par, par_unseq)
                 #pragma omp parallel for
-                for (int octave_index = 0; octave_index < octaves_count; ++octave_index)
+                for (int octave_index = 0; octave_index < static_cast<int>(octaves.size()); ++octave_index)
                 {
                     auto each_octave = octaves[octave_index];
                     #pragma omp parallel for
-- 
2.43.0


From 2c7476040a8c2c503f19b46b5c1dd5c1e3ca4fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:58 +0000
Subject: [PATCH 62/70] fix: get_potential_keypoint finds no keypoint with
 fewer than three differences of Gaussians instead of reading past them

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index a7f1fb2..053c586 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -7004,7 +7004,7 @@ namespace TinyDIP
                 for (int octave_index = 0; octave_index < static_cast<int>(octaves.size()); ++octave_index)
                 {
                     auto each_octave = octaves[octave_index];
-                    for (int scale_index = 0; scale_index < each_octave.size() - 2; ++scale_index)
+                    for (int scale_index = 0; scale_index < static_cast<int>(each_octave.size()) - 2; ++scale_index)
                     {
                         //  `find_local_extrema` function is already parallelized with OpenMP,
                         //  so we can call it directly here without additional parallelization.
@@ -7037,7 +7037,7 @@ namespace TinyDIP
                 {
                     auto each_octave = octaves[octave_index];
                     #pragma omp parallel for
-                    for (int scale_index = 0; scale_index < each_octave.size() - 2; ++scale_index)
+                    for (int scale_index = 0; scale_index < static_cast<int>(each_octave.size()) - 2; ++scale_index)
                     {
                         auto new_points = find_local_extrema(
                             each_octave[scale_index],
-- 
2.43.0


From 8fff662065e67b0415676c70cf921d6e06b8ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:58 +0000
Subject: [PATCH 63/70] fix: orientation histogram and descriptor of a keypoint
 near the left or top border use the pixels inside the image

---
 image_operations.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 053c586..235a49c 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -7165,9 +7165,9 @@ namespace TinyDIP
             }
             std::vector<double> raw_histogram;
             raw_histogram.resize(37);
-            for (std::size_t y = point.p[1] - block_size; y <= point.p[1] + block_size; ++y)
+            for (std::size_t y = point.p[1] - std::min(point.p[1], block_size); y <= point.p[1] + block_size; ++y)
             {
-                for (std::size_t x = point.p[0] - block_size; x <= point.p[0] + block_size; ++x)
+                for (std::size_t x = point.p[0] - std::min(point.p[0], block_size); x <= point.p[0] + block_size; ++x)
                 {
                     if (x >= input.getWidth() || y >= input.getHeight())
                     {
@@ -7194,15 +7194,15 @@ namespace TinyDIP
             Image<std::tuple<FloatingType, FloatingType>> pixel_orientations(block_size * 2, block_size * 2);
             const auto center_x = keypoint_location.p[0];
             const auto center_y = keypoint_location.p[1];
-            for (std::size_t y = center_y - block_size; y < center_y + block_size; ++y)
+            for (std::size_t y = center_y - std::min(center_y, block_size); y < center_y + block_size; ++y)
             {
-                for (std::size_t x = center_x - block_size; x < center_x + block_size; ++x)
+                for (std::size_t x = center_x - std::min(center_x, block_size); x < center_x + block_size; ++x)
                 {
                     if (x >= input.getWidth() || y >= input.getHeight())
                     {
                         continue;
                     }
-                    pixel_orientations.at(x - center_x + block_size, y - center_y + block_size) =
+                    pixel_orientations.at(x + block_size - center_x, y + block_size - center_y) =
                         compute_each_pixel_orientation<ElementT, FloatingType>(subimage(input, 3, 3, x, y));
                 }
             }
-- 
2.43.0


From 365dea34e3ddc66403309ed88aac07164aa4184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:49 +0000
Subject: [PATCH 64/70] fix: keypoint refinement stays within the neighborhood,
 keypoints were placed outside the image or at NaN

---
 image_operations.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 235a49c..8c826a2 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6718,6 +6718,11 @@ namespace TinyDIP
             const ElementT D = -second_derivative_x / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
             const ElementT offset_x = A * first_derivative_x + B * first_derivative_y;
             const ElementT offset_y = C * first_derivative_x + D * first_derivative_y;
+            //  The expansion tells nothing beyond the neighborhood (or if the Hessian matrix is singular), keep the sampled location then
+            if (!(std::abs(offset_x) < 1 && std::abs(offset_y) < 1))
+            {
+                return std::make_tuple(static_cast<ElementT>(std::get<0>(point)), static_cast<ElementT>(std::get<1>(point)));
+            }
             return std::make_tuple(
                 static_cast<ElementT>(std::get<0>(point)) + offset_x,
                 static_cast<ElementT>(std::get<1>(point)) + offset_y);
-- 
2.43.0


From 5d2039a9c5048611db65317d0efa15c36a4c8b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:09 +0000
Subject: [PATCH 65/70] fix: mapping_point keeps a point on the pixel grid
 where it is, rounding moved it to the previous pixel

---
 image_operations.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 8c826a2..3320a66 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6758,11 +6758,10 @@ namespace TinyDIP
             const std::size_t target_width,
             const std::size_t target_height)
         {
-            FloatingType width_percentage = static_cast<FloatingType>(std::get<0>(input_location)) / static_cast<FloatingType>(input_width);
-            FloatingType height_percentage = static_cast<FloatingType>(std::get<1>(input_location)) / static_cast<FloatingType>(input_height);
+            //  Multiply first: the quotient of two sizes is rounded, and a location on the pixel grid would be truncated to the previous pixel
             return Point<2>{
-                static_cast<std::size_t>(width_percentage * static_cast<FloatingType>(target_width)),
-                static_cast<std::size_t>(height_percentage * static_cast<FloatingType>(target_height))
+                static_cast<std::size_t>(static_cast<FloatingType>(std::get<0>(input_location)) * static_cast<FloatingType>(target_width) / static_cast<FloatingType>(input_width)),
+                static_cast<std::size_t>(static_cast<FloatingType>(std::get<1>(input_location)) * static_cast<FloatingType>(target_height) / static_cast<FloatingType>(input_height))
             };
         }
 
-- 
2.43.0


From 218c53b0396450c142359f26d00e1567f1e00524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:59 +0000
Subject: [PATCH 66/70] fix: SIFT of a small image stops at the octaves its
 filters fit in, an exception left a parallel loop and aborted the program

---
 image_operations.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 3320a66..53dbd88 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6862,6 +6862,13 @@ namespace TinyDIP
             {
                 return difference_of_gaussian_images;
             }
+            //  The mirror padding of the largest filter needs that many pixels; an exception must not leave the parallel loop below
+            const auto filter_size = computeFilterSizeFromSigma(
+                initial_sigma * std::max(1.0, std::pow(k, static_cast<double>(number_of_scale_levels - 1))));
+            if (input.getWidth() <= filter_size || input.getHeight() <= filter_size)
+            {
+                throw std::runtime_error("generate_octave: the image is too small for the filter");
+            }
             difference_of_gaussian_images.resize(number_of_scale_levels - 1);
             #pragma omp parallel for
             for (int index = 0; index < number_of_scale_levels - 1; ++index)
@@ -6983,6 +6990,14 @@ namespace TinyDIP
                 {
                     break;
                 }
+                //  The octave is too small for its largest filter
+                if (const auto filter_size = computeFilterSizeFromSigma(
+                        initial_sigma * std::max(1.0, std::pow(k, static_cast<double>(number_of_scale_levels) - 1.0)));
+                    number_of_scale_levels >= 2 &&
+                    (base_image.getWidth() <= filter_size || base_image.getHeight() <= filter_size))
+                {
+                    break;
+                }
                 std::cout << "new_width:" << static_cast<std::size_t>(static_cast<double>(base_image.getWidth()) / 2.0) << '\n'
                     << "new_height:" << static_cast<std::size_t>(static_cast<double>(base_image.getHeight()) / 2.0) << '\n';
                 octaves.emplace_back(generate_octave(base_image, number_of_scale_levels, initial_sigma, k));
-- 
2.43.0


From 05f07c6812557901af9f7cfcb788c3cf8031f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:58 +0000
Subject: [PATCH 67/70] fix: count of an image without dimensions is its number
 of pixels, the two overloads gave 1 and 0 for every such image

---
 image.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/image.h b/image.h
index 4f6513b..3d3029d 100644
--- a/image.h
+++ b/image.h
@@ -377,6 +377,7 @@ namespace TinyDIP
 
         constexpr std::size_t count() const noexcept
         {
+            if (std::ranges::empty(size)) return std::ranges::size(image_data);
             return std::reduce(std::ranges::cbegin(size), std::ranges::cend(size), std::size_t{ 1 }, std::multiplies());
         }
 
@@ -385,7 +386,7 @@ namespace TinyDIP
         requires (std::is_execution_policy_v<std::remove_cvref_t<ExPo>>)
         constexpr std::size_t count(ExPo&& execution_policy) const
         {
-            if (std::ranges::empty(size)) return 0;
+            if (std::ranges::empty(size)) return std::ranges::size(image_data);
             return std::reduce(std::forward<ExPo>(execution_policy), std::ranges::cbegin(size), std::ranges::cend(size), std::size_t{ 1 }, std::multiplies());
         }
   
-- 
2.43.0


From b8cfde5b902d77e2b47efbe43d9f4a5ab2d55515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:07 +0000
Subject: [PATCH 68/70] fix: the max and min commands refuse data without
 elements instead of reading past it

---
 main.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/main.h b/main.h
index 6675090..9c7f169 100644
--- a/main.h
+++ b/main.h
@@ -3757,6 +3757,10 @@ namespace handlers
                         {
                             if constexpr (requires { TinyDIP::max(std::forward<DataT>(data)); })
                             {
+                                if (std::ranges::empty(data.getImageData()))
+                                {
+                                    throw std::invalid_argument("Input image is empty.");
+                                }
                                 return TinyDIP::max(std::forward<DataT>(data));
                             }
                             else
@@ -3769,6 +3773,10 @@ namespace handlers
                         {
                             if constexpr (requires { std::ranges::max(std::forward<DataT>(data)); })
                             {
+                                if (std::ranges::empty(data))
+                                {
+                                    throw std::invalid_argument("Input container is empty.");
+                                }
                                 return std::ranges::max(std::forward<DataT>(data));
                             }
                             else
@@ -3820,6 +3828,10 @@ namespace handlers
                     {
                         if constexpr (requires { TinyDIP::min(std::forward<DataT>(data)); })
                         {
+                            if (std::ranges::empty(data.getImageData()))
+                            {
+                                throw std::invalid_argument("Input image is empty.");
+                            }
                             return TinyDIP::min(std::forward<DataT>(data));
                         }
                         else
@@ -3832,6 +3844,10 @@ namespace handlers
                     {
                         if constexpr (requires { std::ranges::min(std::forward<DataT>(data)); })
                         {
+                            if (std::ranges::empty(data))
+                            {
+                                throw std::invalid_argument("Input container is empty.");
+                            }
                             return std::ranges::min(std::forward<DataT>(data));
                         }
                         else
-- 
2.43.0


From 41392b6863b8563cdbadf61c9b83a80365bc63bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 69/70] fix: read plain bitmaps (P1) whose bits are not
 separated by white space

---
 image_io.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/image_io.h b/image_io.h
index f998e79..e64838c 100644
--- a/image_io.h
+++ b/image_io.h
@@ -454,14 +454,23 @@ namespace TinyDIP
             // Fast-read phase securely ignoring comments throughout the matrix
             std::vector<int> raw_data;
             raw_data.reserve(expected_values);
-            for (std::size_t i = 0; i < expected_values; ++i)
+            while (raw_data.size() < expected_values)
             {
                 std::string token = read_pnm_token(file);
                 if (token.empty())
                 {
                     throw std::runtime_error("Unexpected end of file while reading PNM data.");
                 }
-                raw_data.emplace_back(std::stoi(token));
+                if (magic != "P1")
+                {
+                    raw_data.emplace_back(std::stoi(token));
+                    continue;
+                }
+                //  The bits of a plain bitmap need not be separated by white space
+                for (std::size_t i = 0; i < token.size() && raw_data.size() < expected_values; ++i)
+                {
+                    raw_data.emplace_back(std::stoi(token.substr(i, 1)));
+                }
             }
 
             TinyDIP::Image<RGB> image(width, height);
@@ -510,14 +519,23 @@ namespace TinyDIP
 
             std::vector<int> raw_data;
             raw_data.reserve(expected_values);
-            for (std::size_t i = 0; i < expected_values; ++i)
+            while (raw_data.size() < expected_values)
             {
                 std::string token = read_pnm_token(file);
                 if (token.empty())
                 {
                     throw std::runtime_error("Unexpected end of file while reading PNM data.");
                 }
-                raw_data.emplace_back(std::stoi(token));
+                if (magic != "P1")
+                {
+                    raw_data.emplace_back(std::stoi(token));
+                    continue;
+                }
+                //  The bits of a plain bitmap need not be separated by white space
+                for (std::size_t i = 0; i < token.size() && raw_data.size() < expected_values; ++i)
+                {
+                    raw_data.emplace_back(std::stoi(token.substr(i, 1)));
+                }
             }
 
             TinyDIP::Image<RGB> image(width, height);
-- 
2.43.0


From 98dd5c710d52af08fac5bb283c1ef09702a30e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:49 +0000
Subject: [PATCH 70/70] fix: probabilities of an empty sparse histogram read
 past the end

---
 histogram.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/histogram.h b/histogram.h
index 3b5d115..92b4b94 100644
--- a/histogram.h
+++ b/histogram.h
@@ -219,6 +219,10 @@ namespace TinyDIP
                 }
                 std::sort(std::forward<ExecutionPolicy>(execution_policy), probability_vector.begin(), probability_vector.end(),
                     [&](const auto& a, const auto& b) { return a.first < b.first; });
+                if (probability_vector.empty())
+                {
+                    return probabilities;
+                }
                 probabilities.resize(probability_vector.back().first + 1, 0.0);
                 for (const auto& pair : probability_vector)
                 {
-- 
2.43.0

