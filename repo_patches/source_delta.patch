From 2b533805ec9184006391472dfae795eb1e945f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:48 +0000
Subject: [PATCH 01/24] fix: reject operands of different size in the
 multi-channel euclidean_distance

---
 image_operations.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 4f4a4b2..6a2551a 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4214,6 +4214,10 @@ namespace TinyDIP
         const Image<ElementT2>& input2
         )
     {
+        if (input1.getSize() != input2.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
         return sqrt(execution_policy, two_input_map_reduce(std::forward<ExPo>(execution_policy), input1.getImageData(), input2.getImageData(), MultiChannel<double>{},
             [&](auto&& element1, auto&& element2) {
                 return pow(execution_policy, element1 - element2, 2.0);
@@ -4233,6 +4237,10 @@ namespace TinyDIP
         const Image<MultiChannel<ElementT2, Size>>& input2
         )
     {
+        if (input1.getSize() != input2.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
         return sqrt(std::forward<ExPo>(execution_policy), two_input_map_reduce(std::forward<ExPo>(execution_policy), input1.getImageData(), input2.getImageData(), MultiChannel<ElementT1, Size>{},
             [&](auto&& element1, auto&& element2) {
                 return pow(execution_policy, element1 - element2, 2.0);
-- 
2.43.0


From 3647b89324aed0ffb160ef2b71cb45ebb8e9ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:48 +0000
Subject: [PATCH 02/24] fix: coordinate-list access with a wrong number of
 coordinates throws

---
 image.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image.h b/image.h
index 43bee97..5948af4 100644
--- a/image.h
+++ b/image.h
@@ -235,6 +235,10 @@ namespace TinyDIP
         requires(std::integral<std::ranges::range_value_t<Indices>>)
         constexpr decltype(auto) at(const Indices& indexInput) const
         {
+            if (static_cast<std::size_t>(std::ranges::distance(indexInput)) != std::ranges::size(size))
+            {
+                throw std::runtime_error("Dimensionality mismatched!");
+            }
             std::size_t i = 0;
             // Iterate using ranges to universally support both continuous (std::vector) and discrete (std::list) ranges
             for (const auto& idx : indexInput)
@@ -254,6 +258,10 @@ namespace TinyDIP
         requires(std::integral<std::ranges::range_value_t<Indices>>)
         constexpr decltype(auto) at(const Indices& indexInput)
         {
+            if (static_cast<std::size_t>(std::ranges::distance(indexInput)) != std::ranges::size(size))
+            {
+                throw std::runtime_error("Dimensionality mismatched!");
+            }
             std::size_t i = 0;
             for (const auto& idx : indexInput)
             {
-- 
2.43.0


From adeed7a188ad405be283d5b17c780df799e3b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:48 +0000
Subject: [PATCH 03/24] fix: count() of an image without extents is 0

---
 image.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image.h b/image.h
index 5948af4..82f500c 100644
--- a/image.h
+++ b/image.h
@@ -373,6 +373,7 @@ namespace TinyDIP
 
         constexpr std::size_t count() const noexcept
         {
+            if (std::ranges::empty(size)) return 0;
             return std::reduce(std::ranges::cbegin(size), std::ranges::cend(size), std::size_t{ 1 }, std::multiplies());
         }
 
-- 
2.43.0


From 21443138d72c719fb290a05eae304a2dc3cd68f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:48 +0000
Subject: [PATCH 04/24] fix: constructing an image from rows of different
 length throws

---
 image.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image.h b/image.h
index 82f500c..a3289b0 100644
--- a/image.h
+++ b/image.h
@@ -207,6 +207,10 @@ namespace TinyDIP
             size.emplace_back(std::ranges::size(input));
             for (auto& rows : input)
             {
+                if (std::ranges::size(rows) != size[0])
+                {
+                    throw std::runtime_error("Image data input and the given size are mismatched!");
+                }
                 image_data.insert(std::ranges::end(image_data), std::ranges::begin(rows), std::ranges::end(rows));    //  flatten
             }
             return;
-- 
2.43.0


From cb89906a539a899eb9f636a0516e066fd8b50453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:59 +0000
Subject: [PATCH 05/24] fix: reject operands of different size in add,
 pixelwise_multiplies, divides, modulus and difference

---
 image_operations.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 6a2551a..d14d96f 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -3330,7 +3330,12 @@ namespace TinyDIP
     template<class InputT, class... Args>
     constexpr static Image<InputT> add(const Image<InputT>& input1, const Args&... inputs)
     {
-        return pixelwise_transform(std::plus<>{}, input1, add(inputs...));
+        const auto other = add(inputs...);
+        if (input1.getSize() != other.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
+        return pixelwise_transform(std::plus<>{}, input1, other);
     }
 
     template<class InputT, class... Args>
@@ -3516,7 +3521,12 @@ namespace TinyDIP
     template<class InputT, class... Args>
     constexpr static auto pixelwise_multiplies(const Image<InputT>& input1, const Args&... inputs)
     {
-        return pixelwise_transform(std::multiplies<>{}, input1, pixelwise_multiplies(inputs...));
+        const auto other = pixelwise_multiplies(inputs...);
+        if (input1.getSize() != other.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
+        return pixelwise_transform(std::multiplies<>{}, input1, other);
     }
 
     //  pixelwise_multiplies Template Function Implementation
@@ -3585,12 +3595,14 @@ namespace TinyDIP
     template<class InputT>
     constexpr static Image<InputT> divides(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(std::divides<>{}, input1, input2);
     }
     
     template<class InputT>
     constexpr static Image<InputT> modulus(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(std::modulus<>{}, input1, input2);
     }
 
@@ -3888,6 +3900,7 @@ namespace TinyDIP
     template<arithmetic ElementT = double>
     constexpr static auto difference(const Image<ElementT>& input1, const Image<ElementT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform([](auto&& element1, auto&& element2)
             {
                 if (element1 > element2)
@@ -3901,6 +3914,7 @@ namespace TinyDIP
     requires((std::same_as<InputT, RGB>) || (std::same_as<InputT, RGB_DOUBLE>) || (std::same_as<InputT, HSV>) || is_MultiChannel<InputT>::value)
     constexpr static auto difference(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(
             [](InputT element1, InputT element2)
             {
-- 
2.43.0


From 2394e71a679deb690ee9d7bfa53c903072b89633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:06 +0000
Subject: [PATCH 06/24] fix: collect keypoints of find_local_extrema in a
 critical section

the parallel loop called emplace_back on the shared result vector from
several threads at once
---
 image_operations.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index d14d96f..4446981 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6769,6 +6769,7 @@ namespace TinyDIP
                         if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold) && keypoint_filtering(subimage2, contrast_check_threshold, edge_response_threshold))
                         {
                             auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
+                            #pragma omp critical
                             output.emplace_back(
                                 std::make_tuple(
                                     octave_index,
@@ -6782,6 +6783,7 @@ namespace TinyDIP
                         if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold))
                         {
                             auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
+                            #pragma omp critical
                             output.emplace_back(
                                 std::make_tuple(
                                     octave_index,
-- 
2.43.0


From 8589f8018ae1e54b1b8976e652d18980d1ebb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:15 +0000
Subject: [PATCH 07/24] fix: windowed_filter takes its windows from the
 unfiltered image

Iterations running in parallel wrote their result into the image the other
iterations read their windows from.
---
 image_operations.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 4446981..700982d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5828,6 +5828,7 @@ namespace TinyDIP
                 value_for_constant_padding
             );
         }
+        auto filtered_image = padded_image;     //  every window is taken from the unfiltered image
         // Iterate over all elements in the original image
         const std::size_t total_elements = input.count();
         #ifndef USE_OPENMP
@@ -5860,7 +5861,7 @@ namespace TinyDIP
             );
 
             // Apply filter and store result
-            padded_image.at(padded_indices) =
+            filtered_image.at(padded_indices) =
                 std::invoke(filter, window);
 
             // Progress reporting
@@ -5908,7 +5909,7 @@ namespace TinyDIP
             );
 
             // Apply filter and store result
-            padded_image.at_without_boundary_check(padded_indices) =
+            filtered_image.at_without_boundary_check(padded_indices) =
                 std::invoke(filter, window);
         }
         #endif
@@ -5919,7 +5920,7 @@ namespace TinyDIP
         {
             centers.emplace_back(s / 2);  // Center of padded image
         }
-        auto output = subimage(std::forward<ExecutionPolicy>(execution_policy), padded_image, original_sizes, centers);
+        auto output = subimage(std::forward<ExecutionPolicy>(execution_policy), filtered_image, original_sizes, centers);
         return output;
     }
 
-- 
2.43.0


From fa240673b7fada8d549eabd1497a96fb966302db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:03 +0000
Subject: [PATCH 08/24] fix: split_overlap centres each block in the padded
 image

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 700982d..5839296 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2026,8 +2026,8 @@ namespace TinyDIP
             for (std::size_t x = 0; x < xsegments; ++x)
             {
                 std::vector<std::size_t> new_sizes{block_size_x + 2 * x_extension_pixel_count, block_size_y + 2 * y_extension_pixel_count};
-                auto centerx = x * block_size_x + static_cast<std::size_t>((block_size_x - 1) / 2.0);
-                auto centery = y * block_size_y + static_cast<std::size_t>((block_size_y - 1) / 2.0);
+                auto centerx = x * block_size_x + x_extension_pixel_count + block_size_x / 2;
+                auto centery = y * block_size_y + y_extension_pixel_count + block_size_y / 2;
                 std::vector<std::size_t> centers{centerx, centery};
                 output2.push_back(subimage(
                     std::forward<ExecutionPolicy>(execution_policy),
-- 
2.43.0


From a934a9723158acd32fa7274ba941bbea6003c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:03 +0000
Subject: [PATCH 09/24] fix: rotate keeps whole quarter turns

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 5839296..45f6f6d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5126,7 +5126,7 @@ namespace TinyDIP
             throw std::runtime_error("Unsupported dimension!");
         }
         auto output = input;
-        radians = std::fmod(radians, std::numbers::pi_v<long double> / 2.0);
+        radians = std::fmod(radians, 2 * std::numbers::pi_v<long double>);
         while(radians > std::numbers::pi_v<long double> / 2.0)
         {
             output = rotate_detail(output, std::numbers::pi_v<long double> / 2.0);
-- 
2.43.0


From 17aec83814f26ddbafcf64ea1c38305796fb2ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:22 +0000
Subject: [PATCH 10/24] fix: subimage2 rejects regions that end beyond the
 image

---
 image_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 45f6f6d..0f50c36 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1916,13 +1916,13 @@ namespace TinyDIP
         {
             throw std::runtime_error(Formatter() << "error: starty > endy starty = " << starty << ", endy = " << endy << '\n');
         }
-        if ((startx > input.getWidth()) || (endx > input.getWidth()))
+        if ((startx >= input.getWidth()) || (endx >= input.getWidth()))
         {
-            throw std::runtime_error(Formatter() << "error: (startx or endx) > image width\n");
+            throw std::runtime_error(Formatter() << "error: (startx or endx) >= image width\n");
         }
-        if ((starty > input.getHeight()) || (endy > input.getHeight()))
+        if ((starty >= input.getHeight()) || (endy >= input.getHeight()))
         {
-            throw std::runtime_error(Formatter() << "error: (starty or endy) > image height\n");
+            throw std::runtime_error(Formatter() << "error: (starty or endy) >= image height\n");
         }
         Image<ElementT> output(endx - startx + 1, endy - starty + 1);
         const auto width = output.getWidth();
-- 
2.43.0


From 3a570d7765c1aa2fc98fa6a7a05bbcc242061028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:33 +0000
Subject: [PATCH 11/24] fix: getPlane rejects channels that do not exist

---
 image_operations.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 0f50c36..a478a87 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1192,6 +1192,10 @@ namespace TinyDIP
     template<class OutputT = unsigned char>
     static auto getPlane(const Image<RGB>& input, std::size_t index)
     {
+        if (index >= 3)
+        {
+            throw std::runtime_error("Error: index must be less than 3.");
+        }
         auto input_data = input.getImageData();
         std::vector<OutputT> output_data;
         output_data.resize(input.count());
@@ -1209,6 +1213,10 @@ namespace TinyDIP
     requires (std::same_as<T, HSV> || std::same_as<T, RGB_DOUBLE>)
     static auto getPlane(const Image<T>& input, std::size_t index)
     {
+        if (index >= 3)
+        {
+            throw std::runtime_error("Error: index must be less than 3.");
+        }
         auto input_data = input.getImageData();
         std::vector<OutputT> output_data;
         output_data.resize(input.count());
-- 
2.43.0


From 9e8af70bfb01a76179a760515dbe7304275a8127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:56 +0000
Subject: [PATCH 12/24] fix: BMP, DBMP and HSV readers and writers report
 failures and release their handles

---
 image_io.cpp | 152 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 126 insertions(+), 26 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 4da6d62..13ee142 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -43,7 +43,12 @@ namespace TinyDIP
         }             
         unsigned char header[54];
         auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-        (void)returnValue;
+        if (returnValue != 54)
+        {
+            printf("Fail to read file!\n");
+            fclose(fp);
+            return -1;
+        }
         unsigned long output;
         output = header[18] + 
             ((unsigned long)header[19] << 8) +
@@ -74,7 +79,12 @@ namespace TinyDIP
         }             
         unsigned char header[54];
         auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-        (void)returnValue;
+        if (returnValue != 54)
+        {
+            printf("Fail to read file!\n");
+            fclose(fp);
+            return -1;
+        }
         unsigned long output; 
         output= header[22] + 
             ((unsigned long)header[23] << 8) +
@@ -119,8 +129,13 @@ namespace TinyDIP
         if (biBitCount == 24)
         {
             fseek(fp, bfOffBits, SEEK_SET);
-            result = fread(image, sizeof(unsigned char), (size_t)(long)(xsize * 3 + filling_bytes) * ysize, fp);
-            (void)result;
+            const size_t image_size = (size_t)(long)(xsize * 3 + filling_bytes) * ysize;
+            result = fread(image, sizeof(unsigned char), image_size, fp);
+            if (result != image_size)
+            {
+                fclose(fp);
+                return -1;
+            }
         }
         else if (biBitCount == 8)
         {
@@ -134,6 +149,11 @@ namespace TinyDIP
             {
                 fseek(fp, 14 + header_size, SEEK_SET);
                 result = fread(palette, 1, palette_size, fp);
+                if (result != static_cast<size_t>(palette_size))
+                {
+                    fclose(fp);
+                    return -1;
+                }
             }
 
             fseek(fp, bfOffBits, SEEK_SET);
@@ -142,12 +162,23 @@ namespace TinyDIP
             int padding_8 = (4 - (xsize % 4)) % 4;
             
             unsigned char* row_buffer = static_cast<unsigned char*>(malloc(xsize + padding_8));
-            if (row_buffer != NULL)
+            if (row_buffer == NULL)
+            {
+                fclose(fp);
+                return -1;
+            }
+            else
             {
                 for (int y = 0; y < ysize; ++y)
                 {
                     memset(row_buffer, 0, xsize + padding_8);
                     result = fread(row_buffer, 1, xsize + padding_8, fp);
+                    if (result != static_cast<size_t>(xsize + padding_8))
+                    {
+                        free(row_buffer);
+                        fclose(fp);
+                        return -1;
+                    }
                     
                     for (int x = 0; x < xsize; ++x)
                     {
@@ -170,6 +201,8 @@ namespace TinyDIP
         else
         {
             printf("Unsupported BMP bit depth: %d\n", biBitCount);
+            fclose(fp);
+            return -1;
         }
 
         fclose(fp); 
@@ -205,6 +238,7 @@ namespace TinyDIP
             throw std::runtime_error("Fail to read BMP file!");
             return output;
         }             
+        fclose(fp);
         output.FILENAME = fname_bmp;
         int OriginSizeX = bmp_read_x_size(output.FILENAME.string().c_str(),true);
         int OriginSizeY = bmp_read_y_size(output.FILENAME.string().c_str(),true);
@@ -226,21 +260,25 @@ namespace TinyDIP
             output.IMAGE_DATA = static_cast<unsigned char*>(malloc(sizeof *output.IMAGE_DATA * (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE));
             if (output.IMAGE_DATA == NULL)
             { 
-                std::cerr << "Memory allocation error!";
-                return output;
+                throw std::runtime_error("Memory allocation error!");
             }
             unsigned char *OriginImageData;
             OriginImageData = static_cast<unsigned char *>(malloc(sizeof *OriginImageData * (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE));
             if (OriginImageData == NULL)
             { 
-                std::cerr << "Memory allocation error!";
-                return output;
+                free(output.IMAGE_DATA);
+                throw std::runtime_error("Memory allocation error!");
             }
             for(int i = 0; i < ((output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE);i++)
             {
                 OriginImageData[i] = 255;
             }
-            bmp_read_detail(OriginImageData, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true);
+            if (bmp_read_detail(OriginImageData, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true) != 0)
+            {
+                free(OriginImageData);
+                free(output.IMAGE_DATA);
+                throw std::runtime_error("Fail to read BMP file!");
+            }
             for (size_t loop = 0; loop < (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE; loop++)
             {
                 printf("%d\n", OriginImageData[loop]);
@@ -276,14 +314,17 @@ namespace TinyDIP
         output.IMAGE_DATA = static_cast<unsigned char *>(malloc(sizeof *output.IMAGE_DATA * (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE));
         if (output.IMAGE_DATA == NULL)
         { 
-            std::cerr << "Memory allocation error!";
-            return output;
+            throw std::runtime_error("Memory allocation error!");
         }     
         for(int i = 0; i < ((output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE);i++)
         {
             output.IMAGE_DATA[i] = 255;
         }
-        bmp_read_detail(output.IMAGE_DATA, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true);
+        if (bmp_read_detail(output.IMAGE_DATA, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true) != 0)
+        {
+            free(output.IMAGE_DATA);
+            throw std::runtime_error("Fail to read BMP file!");
+        }
         return output;
     }
 
@@ -309,6 +350,10 @@ namespace TinyDIP
     int bmp_write(const char *filename, Image<RGB> input)
     {
         auto image_data = TinyDIP::array_to_raw_image(input);
+        if (image_data == NULL)
+        {
+            return -1;
+        }
         auto sizex = input.getWidth();
         auto sizey = input.getHeight();
         auto result = TinyDIP::bmp_write(filename, sizex, sizey, image_data);
@@ -352,9 +397,16 @@ namespace TinyDIP
         {    
             return -1;
         }        
-        fwrite(header, sizeof(unsigned char), 54, fp);
-        fwrite(image, sizeof(unsigned char), (size_t)(long)(xsize * 3 + FillingByte) * ysize, fp);
-        fclose(fp);
+        const size_t image_size = (size_t)(long)(xsize * 3 + FillingByte) * ysize;
+        if (fwrite(header, sizeof(unsigned char), 54, fp) != 54 || fwrite(image, sizeof(unsigned char), image_size, fp) != image_size)
+        {
+            fclose(fp);
+            return -1;
+        }
+        if (fclose(fp) != 0)
+        {
+            return -1;
+        }
         return 0;
     }
 
@@ -460,15 +512,26 @@ namespace TinyDIP
             {
                 return -1;
             }
-            fwrite(header, sizeof(unsigned char), 54, fp);
-            fwrite(image, sizeof(double), (size_t)(long)(xsize + FillingByte) * ysize, fp);
-            fclose(fp);
+            const size_t image_size = (size_t)(long)(xsize + FillingByte) * ysize;
+            if (fwrite(header, sizeof(unsigned char), 54, fp) != 54 || fwrite(image, sizeof(double), image_size, fp) != image_size)
+            {
+                fclose(fp);
+                return -1;
+            }
+            if (fclose(fp) != 0)
+            {
+                return -1;
+            }
             return 0;
         }
 
         int write(const char* filename, Image<double> input)
         {
             auto image_data = TinyDIP::double_image::array_to_raw_image(input);
+            if (image_data == NULL)
+            {
+                return -1;
+            }
             auto sizex = input.getWidth();
             auto sizey = input.getHeight();
             auto result = TinyDIP::double_image::write(filename, sizex, sizey, image_data);
@@ -500,6 +563,7 @@ namespace TinyDIP
             if ((OriginSizeX == -1) || (OriginSizeY == -1))
             {
                 std::cerr << "Fail to fetch information of image!";
+                fclose(fp);
                 return TinyDIP::Image<double>(0, 0);
             }
             printf("Width of the input image: %d\n", OriginSizeX);
@@ -507,11 +571,23 @@ namespace TinyDIP
             printf("Size of the input image: %ld\n", static_cast<size_t>(OriginSizeX * OriginSizeY));
             unsigned char header[54];
             auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-            (void)returnValue;
             double* image;
             unsigned char FillingByte = bmp_filling_byte_calc(OriginSizeX, 8);
             image = static_cast<double*>(malloc(sizeof * image * (OriginSizeX + FillingByte) * OriginSizeY));
-            returnValue = fread(image, sizeof(double), (size_t)(double)(OriginSizeX + FillingByte) * OriginSizeY, fp);
+            if (image == NULL)
+            {
+                std::cerr << "Memory allocation error!";
+                fclose(fp);
+                return TinyDIP::Image<double>(0, 0);
+            }
+            const size_t image_size = (size_t)(double)(OriginSizeX + FillingByte) * OriginSizeY;
+            if (returnValue != 54 || fread(image, sizeof(double), image_size, fp) != image_size)
+            {
+                std::cerr << "Fail to read image data!";
+                free(image);
+                fclose(fp);
+                return TinyDIP::Image<double>(0, 0);
+            }
             TinyDIP::Image<double> output(OriginSizeX, OriginSizeY);
             for (int y = 0; y < OriginSizeY; y++)
             {
@@ -588,15 +664,26 @@ namespace TinyDIP
         {
             return -1;
         }
-        fwrite(header, sizeof(unsigned char), 54, fp);
-        fwrite(image, sizeof(double), (size_t)(long)(xsize * 3 + FillingByte) * ysize, fp);
-        fclose(fp);
+        const size_t image_size = (size_t)(long)(xsize * 3 + FillingByte) * ysize;
+        if (fwrite(header, sizeof(unsigned char), 54, fp) != 54 || fwrite(image, sizeof(double), image_size, fp) != image_size)
+        {
+            fclose(fp);
+            return -1;
+        }
+        if (fclose(fp) != 0)
+        {
+            return -1;
+        }
         return 0;
     }
 
     int hsv_write(const char* const filename, Image<HSV> input)
     {
         auto image_data = TinyDIP::double_image::array_to_raw_image(input);
+        if (image_data == NULL)
+        {
+            return -1;
+        }
         auto sizex = input.getWidth();
         auto sizey = input.getHeight();
         auto result = TinyDIP::hsv_write_detail(filename, sizex, sizey, image_data);
@@ -628,6 +715,7 @@ namespace TinyDIP
         if ((OriginSizeX == -1) || (OriginSizeY == -1))
         {
             std::cerr << "Fail to fetch information of image!";
+            fclose(fp);
             return Image<HSV>(0, 0);
         }
         printf("Width of the input image: %d\n", OriginSizeX);
@@ -635,11 +723,23 @@ namespace TinyDIP
         printf("Size of the input image: %ld\n", static_cast<size_t>(OriginSizeX * OriginSizeY * 3));
         unsigned char header[54];
         auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-        (void)returnValue;
         double* image;
         unsigned char filling_bytes = bmp_filling_byte_calc(OriginSizeX, 8);
         image = static_cast<double*>(malloc(sizeof * image * (OriginSizeX * 3 + filling_bytes) * OriginSizeY));
-        returnValue = fread(image, sizeof(double), (size_t)(long)(OriginSizeX * 3 + filling_bytes) * OriginSizeY, fp);
+        if (image == NULL)
+        {
+            std::cerr << "Memory allocation error!";
+            fclose(fp);
+            return Image<HSV>(0, 0);
+        }
+        const size_t image_size = (size_t)(long)(OriginSizeX * 3 + filling_bytes) * OriginSizeY;
+        if (returnValue != 54 || fread(image, sizeof(double), image_size, fp) != image_size)
+        {
+            std::cerr << "Fail to read image data!";
+            free(image);
+            fclose(fp);
+            return Image<HSV>(0, 0);
+        }
         fclose(fp);
         auto output = Image<HSV>(OriginSizeX, OriginSizeY);
         for (int y = 0; y < OriginSizeY; y++)
-- 
2.43.0


From 2bd9d0e43c2a6a2297a1c9c8129fdecd3335597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:56 +0000
Subject: [PATCH 13/24] fix: CSV and PNM writers report data that could not be
 written

---
 image_io.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/image_io.h b/image_io.h
index c3f0a0d..c817007 100644
--- a/image_io.h
+++ b/image_io.h
@@ -99,6 +99,11 @@ namespace TinyDIP
             {
                 file << row_strings[y] << '\n';
             }
+
+            if (!file.flush())
+            {
+                throw std::runtime_error("Could not write to file!\n");
+            }
         }
 
         // -------------------------------------------------------------------------
@@ -150,6 +155,11 @@ namespace TinyDIP
             {
                 file << row_strings[y] << '\n';
             }
+
+            if (!file.flush())
+            {
+                throw std::runtime_error("Could not write to file!\n");
+            }
         }
 
         //  write_to_csv template function implementation
@@ -596,6 +606,11 @@ namespace TinyDIP
                     }
                 }
             }
+
+            if (!file.flush())
+            {
+                throw std::runtime_error("Could not write to file: " + file_path.string());
+            }
         }
     }
 
-- 
2.43.0


From 08fa30ff345be0751ef05a67e327a5bc184c3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:56 +0000
Subject: [PATCH 14/24] fix: saving an image reports a file that could not be
 written

---
 main.h | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/main.h b/main.h
index d1a7c87..3b401ae 100644
--- a/main.h
+++ b/main.h
@@ -700,7 +700,10 @@ public:
                     }
                     else
                     {
-                        TinyDIP::double_image::write(base_path.string().c_str(), std::forward<ImageType>(img));
+                        if (TinyDIP::double_image::write(base_path.string().c_str(), std::forward<ImageType>(img)) != 0)
+                        {
+                            throw std::runtime_error("Could not write file: " + base_path.string());
+                        }
                     }
                 }
                 else if constexpr (std::is_same_v<std::decay_t<ImageType>, TinyDIP::Image<TinyDIP::RGB>>)
@@ -711,12 +714,18 @@ public:
                     }
                     else
                     {
-                        TinyDIP::bmp_write(base_path.string().c_str(), std::forward<ImageType>(img));
+                        if (TinyDIP::bmp_write(base_path.string().c_str(), std::forward<ImageType>(img)) != 0)
+                        {
+                            throw std::runtime_error("Could not write file: " + base_path.string());
+                        }
                     }
                 }
                 else if constexpr (std::is_same_v<std::decay_t<ImageType>, TinyDIP::Image<TinyDIP::HSV>>)
                 {
-                    TinyDIP::hsv_write(base_path.string().c_str(), std::forward<ImageType>(img));
+                    if (TinyDIP::hsv_write(base_path.string().c_str(), std::forward<ImageType>(img)) != 0)
+                    {
+                        throw std::runtime_error("Could not write file: " + base_path.string());
+                    }
                 }
                 else
                 {
@@ -4419,17 +4428,26 @@ namespace handlers
                     
                     if constexpr (std::is_same_v<T, TinyDIP::Image<TinyDIP::RGB>>)
                     {
-                        TinyDIP::bmp_write(file_path.string().c_str(), *img_ptr); 
+                        if (TinyDIP::bmp_write(file_path.string().c_str(), *img_ptr) != 0)
+                        {
+                            throw std::runtime_error("Could not write file: " + file_path.string());
+                        }
                         os << "  Saved $" << name << " -> " << file_path.string() << ".bmp\n";
                     }
                     else if constexpr (std::is_same_v<T, TinyDIP::Image<double>>)
                     {
-                        TinyDIP::double_image::write(file_path.string().c_str(), *img_ptr); 
+                        if (TinyDIP::double_image::write(file_path.string().c_str(), *img_ptr) != 0)
+                        {
+                            throw std::runtime_error("Could not write file: " + file_path.string());
+                        }
                         os << "  Saved $" << name << " -> " << file_path.string() << ".dbmp\n";
                     }
                     else if constexpr (std::is_same_v<T, TinyDIP::Image<TinyDIP::HSV>>)
                     {
-                        TinyDIP::hsv_write(file_path.string().c_str(), *img_ptr); 
+                        if (TinyDIP::hsv_write(file_path.string().c_str(), *img_ptr) != 0)
+                        {
+                            throw std::runtime_error("Could not write file: " + file_path.string());
+                        }
                         os << "  Saved $" << name << " -> " << file_path.string() << ".hsv\n";
                     }
                     return true;
-- 
2.43.0


From 23d4cda06121b45fd95c4f519bcfe881001ea696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:56 +0000
Subject: [PATCH 15/24] fix: mean applies the supplied reduction

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index a478a87..376ae6d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4339,7 +4339,7 @@ namespace TinyDIP
     requires(std::regular_invocable<F, ElementT, ElementT>)
     constexpr static auto mean(const Image<ElementT>& input, F f = {})
     {
-        return std::invoke(std::divides<>(), sum(input), input.count());
+        return std::invoke(std::divides<>(), sum(input, f), input.count());
     }
 
     //  mean template function implementation
@@ -4348,7 +4348,7 @@ namespace TinyDIP
              std::regular_invocable<F, ElementT, ElementT>)
     constexpr static auto mean(ExecutionPolicy&& execution_policy, const Image<ElementT>& input, F f = {})
     {
-        return std::invoke(std::divides<>(), sum(std::forward<ExecutionPolicy>(execution_policy), input), input.count());
+        return std::invoke(std::divides<>(), sum(std::forward<ExecutionPolicy>(execution_policy), input, f), input.count());
     }
 
     //  min template function implementation
-- 
2.43.0


From 6ab907633cfbac35a403b7eba48932bca2a4a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:56 +0000
Subject: [PATCH 16/24] fix: print_with_latex_to_file reports a file that could
 not be written

---
 image_operations.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 376ae6d..20aaad3 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1764,6 +1764,10 @@ namespace TinyDIP
     {
         std::ofstream newfile;
         newfile.open(filename);
+        if (!newfile.is_open())
+        {
+            throw std::runtime_error("Could not open file for writing: " + filename);
+        }
         newfile << "\\begin{tikzpicture}[x=1cm,y=0.4cm]\n";
         for (std::size_t y = 0; y < input.getHeight(); ++y)
         {
@@ -1779,6 +1783,10 @@ namespace TinyDIP
         }
         newfile << "\\end{tikzpicture}\n";
         newfile.close();
+        if (!newfile)
+        {
+            throw std::runtime_error("Could not write to file: " + filename);
+        }
         return;
     }
 
-- 
2.43.0


From d900a13620a9f164ee32b11f553e040471fe7b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:54 +0000
Subject: [PATCH 17/24] fix: Histogram iterators refer to the histogram, not to
 a local copy of its data

---
 histogram.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/histogram.h b/histogram.h
index 50cf0a4..24a0330 100644
--- a/histogram.h
+++ b/histogram.h
@@ -239,12 +239,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cbegin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cbegin();
             }
         }
@@ -252,12 +252,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cend();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cend();
             }
         }
@@ -265,12 +265,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cbegin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cbegin();
             }
         }
@@ -278,12 +278,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cend();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cend();
             }
         }
@@ -291,12 +291,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.begin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.begin();
             }
         }
@@ -304,12 +304,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.end();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.end();
             }
         }
-- 
2.43.0


From ba3bd88b7f278a03044d3f183f6146ec9ebf7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:54 +0000
Subject: [PATCH 18/24] fix: Histogram += and -= modify the histogram they are
 called on

---
 histogram.h | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/histogram.h b/histogram.h
index 24a0330..f2aba42 100644
--- a/histogram.h
+++ b/histogram.h
@@ -315,12 +315,12 @@ namespace TinyDIP
         }
 
         // += operator to add two Histograms
-        Histogram& operator+=(const Histogram& other) const
+        Histogram& operator+=(const Histogram& other)
         {
             if constexpr (is_dense)
             {
                 auto& get_result = std::get<std::vector<CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::vector<CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::vector<CountT>>(other.histogram);
                 if (get_result.size() != get_result_other.size())
                 {
                     throw std::runtime_error("Size mismatched for vector-based histograms!");
@@ -329,18 +329,15 @@ namespace TinyDIP
                 {
                     get_result[i] += get_result_other[i];
                 }
-                histogram = get_result;
-                
             }
             else
             {
                 auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
-                const auto get_result_other = std::get<const std::map<ElementT, CountT>>(other.histogram);
+                const auto get_result_other = std::get<std::map<ElementT, CountT>>(other.histogram);
                 for (const auto& [key, value] : get_result_other)
                 {
                     get_result[key] += value;
                 }
-                histogram = get_result;
             }
             return *this;
         }
@@ -354,51 +351,48 @@ namespace TinyDIP
         }
 
         // -= operator to subtract two Histograms
-        Histogram& operator-=(const Histogram& other) const
+        Histogram& operator-=(const Histogram& other)
         {
             if constexpr (is_dense)
             {
                 auto& get_result = std::get<std::vector<CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::vector<CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::vector<CountT>>(other.histogram);
                 if (get_result.size() != get_result_other.size())
                 {
                     throw std::runtime_error("Size mismatched!");
                 }
-                std::vector<CountT> result_data = get_result;
-                for (std::size_t i = 0; i < result_data.size(); i++)
+                for (std::size_t i = 0; i < get_result.size(); i++)
                 {
-                    if (result_data[i] >= get_result_other[i])
+                    if (get_result[i] >= get_result_other[i])
                     {
-                        result_data[i] -= get_result_other[i];
+                        get_result[i] -= get_result_other[i];
                     }
                     else
                     {
-                        result_data[i] = 0;
+                        get_result[i] = 0;
                     }
                 }
-                return Histogram<ElementT, CountT>{ result_data };
             }
             else
             {
                 auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::map<ElementT, CountT>>(other.histogram);
-                std::map<ElementT, CountT> result_data = get_result;
+                const auto& get_result_other = std::get<std::map<ElementT, CountT>>(other.histogram);
                 for (const auto& [key, value] : get_result_other)
                 {
-                    if (result_data.contains(key))
+                    if (get_result.contains(key))
                     {
-                        if (result_data.at(key) >= value)
+                        if (get_result.at(key) >= value)
                         {
-                            result_data[key] -= value;
+                            get_result[key] -= value;
                         }
                         else
                         {
-                            result_data[key] = 0;
+                            get_result[key] = 0;
                         }
                     }
                 }
-                return Histogram<ElementT, CountT>{ result_data };
             }
+            return *this;
         }
 
         // operator- (using operator-=)
-- 
2.43.0


From 6fdbe4502d80f58a9f310c451913d7bf1044a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:05 +0000
Subject: [PATCH 19/24] fix: renaming a workspace variable to its own name
 keeps it

---
 main.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/main.h b/main.h
index 3b401ae..8a344a1 100644
--- a/main.h
+++ b/main.h
@@ -421,9 +421,13 @@ struct Workspace
         const std::string old_key(sanitize_string_view(old_name));
         if (auto it = memory_store.find(old_key); it != std::ranges::end(memory_store))
         {
-            //  Use std::move to natively transfer ownership of the type-erased object with zero-copy
-            memory_store[std::string(sanitize_string_view(new_name))] = std::move(it->second);
-            memory_store.erase(it);
+            const std::string new_key(sanitize_string_view(new_name));
+            if (new_key != old_key)
+            {
+                //  Use std::move to natively transfer ownership of the type-erased object with zero-copy
+                memory_store[new_key] = std::move(it->second);
+                memory_store.erase(it);
+            }
             return true;
         }
         return false;
-- 
2.43.0


From c8b458de7d847f08f73a84802aeb6405932e6879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:05 +0000
Subject: [PATCH 20/24] fix: save_workspace holds the workspace lock while it
 walks the variable table

---
 main.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.h b/main.h
index 8a344a1..30317a5 100644
--- a/main.h
+++ b/main.h
@@ -4421,6 +4421,7 @@ namespace handlers
 
         os << "Saving workspace bundle to " << dir_path.string() << "...\n";
 
+        std::lock_guard<std::mutex> lock(workspace.mtx);
         for (const auto& [name, value] : workspace.memory_store)
         {
             auto try_save_image = [&]<typename T>() -> bool
-- 
2.43.0


From 5d09c809b2683c1e8972b446ef8598cec4b6bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:05 +0000
Subject: [PATCH 21/24] fix: a plugin library is held before its registration
 code runs

---
 main.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index 7bc1ecf..09a0231 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1416,9 +1416,6 @@ inline void load_plugins(
                     using RegisterFunc = void(*)(CommandRegistry&);
                     auto register_fn = lib.get_function<RegisterFunc>("register_plugin_commands");
                     
-                    // Inject the central registry into the DLL
-                    register_fn(registry);
-                    
                     // Securely hold the library handle in RAM so it doesn't destruct while executing
                     // Utilizing emplace_back to dynamically support vector, deque, and list natively
                     if constexpr (requires { active_plugins.emplace_back(std::move(lib)); })
@@ -1434,6 +1431,10 @@ inline void load_plugins(
                         active_plugins.insert(std::ranges::end(active_plugins), std::move(lib));
                     }
                     
+                    // Inject the central registry into the DLL. The library is already held above, so whatever it
+                    // registered (or threw) stays valid even if the registration fails halfway
+                    register_fn(registry);
+                    
                     os << "  Loaded module: " << entry.path().filename().string() << "\n";
                 }
                 catch (const std::exception& e)
-- 
2.43.0


From e68a0efc6bd6d88906df81ca1adce337f76b93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:05 +0000
Subject: [PATCH 22/24] fix: plugin libraries outlive the workspace that may
 hold their values

---
 main.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index 09a0231..65cfdc2 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1453,11 +1453,12 @@ inline void load_plugins(
 //  Main Entry Point
 int main(int argc, char* argv[])
 {
-    // Configure the shared state memory workspace
-    auto workspace = std::make_shared<Workspace>();
-
     // Define the persistent active plugins container at the highest scope to govern RAII destructors safely
+    // It precedes the workspace, which may hold values whose destructors live in a plugin
     std::vector<DynamicLibrary> active_plugins;
+
+    // Configure the shared state memory workspace
+    auto workspace = std::make_shared<Workspace>();
     
     // Register commands directly with context-injected instances using generic variadic bundles
     CommandRegistry registry = command_registration(
-- 
2.43.0


From 6d9e184338ec6579079a79ee5982e5a58938b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:05 +0000
Subject: [PATCH 23/24] fix: pipelines inject the output variable where ones,
 zeros, grid and gaussian_figure_2d expect it

---
 main.cpp | 8 ++++----
 main.h   | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/main.cpp b/main.cpp
index 65cfdc2..ae70ba5 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1498,7 +1498,7 @@ int main(int argc, char* argv[])
                 handlers::erase_element(workspace, args, os);
             }
         },
-        CommandBundle{"gaussian_figure_2d", "Generate a 2D Gaussian figure image.", GeneratorSchema, 
+        CommandBundle{"gaussian_figure_2d", "Generate a 2D Gaussian figure image.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::gaussian_figure_2d(workspace, args, os);
@@ -1534,7 +1534,7 @@ int main(int argc, char* argv[])
                 handlers::get_sift_potential_keypoint(workspace, args, os);
             }
         },
-        CommandBundle{"grid", "Generate a grid image.", GeneratorSchema, 
+        CommandBundle{"grid", "Generate a grid image.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::grid_generator(workspace, args, os);
@@ -1576,7 +1576,7 @@ int main(int argc, char* argv[])
                 handlers::normalize(workspace, args, os);
             }
         },
-        CommandBundle{"ones", "Generate an image filled with ones.", GeneratorSchema, 
+        CommandBundle{"ones", "Generate an image filled with ones.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::ones(workspace, args, os);
@@ -1630,7 +1630,7 @@ int main(int argc, char* argv[])
                 handlers::write(workspace, args, os);
             }
         },
-        CommandBundle{"zeros", "Generate an image filled with zeros.", GeneratorSchema, 
+        CommandBundle{"zeros", "Generate an image filled with zeros.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::zeros(workspace, args, os);
diff --git a/main.h b/main.h
index 30317a5..9f02bab 100644
--- a/main.h
+++ b/main.h
@@ -809,6 +809,7 @@ struct IOSchema
 
 //  Define human-readable pipeline schema routing constants globally
 constexpr auto GeneratorSchema = IOSchema{ -1, 1 };
+constexpr auto CreatorSchema = IOSchema{ -1, 0 };
 constexpr auto TerminatorSchema = IOSchema{ 0, -1 };
 constexpr auto TransformerSchema = IOSchema{ 0, 1 };
 constexpr auto CombinerSchema = IOSchema{ 0, 2 };
-- 
2.43.0


From fbbb8917b86b0dff4d92f62a0df0f711f8e7f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:14 +0000
Subject: [PATCH 24/24] fix: two-dimensional operations reject other images
 before their parallel loops

---
 image_operations.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 20aaad3..dc86e15 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -558,6 +558,10 @@ namespace TinyDIP
         const bool is_size_same = false
     )
     {
+        if ((x.getDimensionality()!=2) || (y.getDimensionality()!=2))
+        {
+            throw std::runtime_error("Unsupported dimension!");
+        }
         using OutputT = std::common_type_t<ElementT1, ElementT2>;
         const std::size_t out_w = x.getWidth() + y.getWidth() - 1;
         const std::size_t out_h = x.getHeight() + y.getHeight() - 1;
@@ -1924,6 +1928,10 @@ namespace TinyDIP
     template<typename ElementT>
     static auto subimage2(const Image<ElementT>& input, const std::size_t startx, const std::size_t endx, const std::size_t starty, const std::size_t endy)
     {
+        if (input.getDimensionality()!=2)
+        {
+            throw std::runtime_error("Unsupported dimension!");
+        }
         if (startx > endx)
         {
             throw std::runtime_error(Formatter() << "error: startx > endx startx = " << startx << ", endx = " << endx << '\n');
@@ -2255,6 +2263,10 @@ namespace TinyDIP
     template<typename ElementT>
     [[nodiscard]] Image<ElementT> resize_nearest_neighbor(const Image<ElementT>& image, const std::size_t new_width, const std::size_t new_height)
     {
+        if (image.getDimensionality()!=2)
+        {
+            throw std::runtime_error("Unsupported dimension!");
+        }
         const std::size_t old_width = image.getWidth();
         const std::size_t old_height = image.getHeight();
 
@@ -2333,6 +2345,10 @@ namespace TinyDIP
     template<class FloatingType = float, arithmetic ElementT>
     static Image<ElementT> copyResizeBicubic(const Image<ElementT>& image, const std::size_t width, const std::size_t height)
     {
+        if (image.getDimensionality()!=2)
+        {
+            throw std::runtime_error("Unsupported dimension!");
+        }
         Image<ElementT> output(width, height);
         //  get used to the C++ way of casting
         const auto ratiox = static_cast<FloatingType>(image.getWidth()) / static_cast<FloatingType>(width);
@@ -6229,6 +6245,10 @@ namespace TinyDIP
         std::size_t radius = 3
         )
     {
+        if (input.getDimensionality()!=2)
+        {
+            throw std::runtime_error("Unsupported dimension!");
+        }
         auto point_x = point.p[0];
         auto point_y = point.p[1];
         auto output = input;
-- 
2.43.0

