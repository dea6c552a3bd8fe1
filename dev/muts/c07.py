I="image_io.cpp"; H="image_io.h"; G="image_operations.h"; M_="main.h"
XS='''        auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
        if (returnValue != 54)
        {
            printf("Fail to read file!\\n");
            fclose(fp);
            return -1;
        }
'''
M=[
# leaks
('l1','C07',1,I,'''            fclose(fp);
            return -1;
        }
        unsigned long output;''','''            return -1;
        }
        unsigned long output;''',1),
('l2','C07',1,I,'''                        free(row_buffer);
                        fclose(fp);''','''                        fclose(fp);'''),
('l3','C07',1,I,'''            free(output.IMAGE_DATA);
            throw std::runtime_error("Fail to read BMP file!");
        }
        return output;''','''            throw std::runtime_error("Fail to read BMP file!");
        }
        return output;'''),
('l4','C07',1,I,'''        auto result = TinyDIP::bmp_write(filename, sizex, sizey, image_data);
        free(image_data);''','''        auto result = TinyDIP::bmp_write(filename, sizex, sizey, image_data);
        if (result == 0) free(image_data);'''),
('l5','C07',1,I,'''        auto output = TinyDIP::raw_image_to_array(image.XSIZE, image.YSIZE, image.IMAGE_DATA);
        free(image.IMAGE_DATA);''','''        auto output = TinyDIP::raw_image_to_array(image.XSIZE, image.YSIZE, image.IMAGE_DATA);
        if (image.XSIZE > 0 && image.YSIZE > 1) free(image.IMAGE_DATA);'''),
('d1','C07',1,I,'''            free(image);
            fclose(fp);
            return output;''','''            free(image);
            fclose(fp);
            if (OriginSizeX > 4096) fclose(fp);
            return output;'''),
('d2','C07',1,I,'''        auto result = TinyDIP::hsv_write_detail(filename, sizex, sizey, image_data);
        free(image_data);
        return result;''','''        auto result = TinyDIP::hsv_write_detail(filename, sizex, sizey, image_data);
        free(image_data);
        if (result != 0) free(image_data);
        return result;'''),
('u1','C07',1,I,'''        free(image);
        return output;
    }''','''        free(image);
        if (OriginSizeX == 1) output.at(static_cast<std::size_t>(0), static_cast<std::size_t>(0)).channels[0] = image[0];
        return output;
    }'''),
('u2','C07',1,I,'''        auto result = TinyDIP::bmp_write(filename, sizex, sizey, image_data);
        free(image_data);
        return result;''','''        free(image_data);
        auto result = TinyDIP::bmp_write(filename, sizex, sizey, image_data);
        return result;'''),
# unreported failures
('f1','C08',1,I,'''            if (result != image_size)
            {
                fclose(fp);
                return -1;
            }
''','''            if (result == 0)
            {
                fclose(fp);
                return -1;
            }
            (void)result;
''') if False else ('f1','C08',1,I,'''            if (result != image_size)
            {
                fclose(fp);
                return -1;
            }
''',''),
('f2','C08',1,I,'''        if (fclose(fp) != 0)
        {
            return -1;
        }
''','''        fclose(fp);
''',1),
('f3','C08',1,I,'''        if (result != 54) {
            fclose(fp);
            return -1;
        }''','''        if (result != 54) {
            fclose(fp);
            return 0;
        }'''),
('f4','C08',1,I,'''bmp_read_detail(output.IMAGE_DATA, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true) != 0)''','''bmp_read_detail(output.IMAGE_DATA, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true) > 0)'''),
('f5','C08',1,H,'''            if (!file.flush())
            {
                throw std::runtime_error("Could not write to file: " + file_path.string());
            }
''',''),
('f6','C08',0,H,'''            if (!file.is_open())
            {
                throw std::runtime_error("Could not open file for writing: " + file_path.string());
            }
''',''),
('f7','C08',1,H,'''                if (token.empty())
                {
                    throw std::runtime_error("Unexpected end of file while reading PNM data.");
                }
                raw_data.emplace_back(std::stoi(token));''','''                if (token.empty())
                {
                    break;
                }
                raw_data.emplace_back(std::stoi(token));''',1),
('f8','C08',1,M_,'''                    if (TinyDIP::hsv_write(base_path.string().c_str(), std::forward<ImageType>(img)) != 0)
                    {
                        throw std::runtime_error("Could not write file: " + base_path.string());
                    }
''','''                    TinyDIP::hsv_write(base_path.string().c_str(), std::forward<ImageType>(img));
'''),
('f9','C08',1,I,'''            if (returnValue != 54 || fread(image, sizeof(double), image_size, fp) != image_size)''','''            if (returnValue != 54 && fread(image, sizeof(double), image_size, fp) != image_size)'''),
('f10','C08',1,I,'''        if (fp == NULL)
        {
            std::cerr << "Fail to read file: " << target_path.string() << "!\\n";
            return Image<HSV>(0, 0);
        }
''',''),
('f11','C08',1,I,'''        if (!(fp = fopen(fname_bmp.string().c_str(), "wb")))
        {    
            return -1;
        }        
''','''        if (!(fp = fopen(fname_bmp.string().c_str(), "wb")))
        {    
            return 0;
        }        
'''),
# equivalent rewrites
('r1','C07,C08',0,I,XS,'''        if (fread(header, sizeof(unsigned char), 54, fp) < 54)
        {
            fclose(fp);
            return -1;
        }
''',0),
('r2','C07,C08',0,I,XS,'''        const bool complete = (fread(header, 54, 1, fp) == 1);
        if (!complete)
        {
            fclose(fp);
            return -1;
        }
''',1),
('r3','C07,C08',0,I,'''    int bmp_write(std::string filename, Image<RGB> input)
    {''','''    static int close_with(FILE* f, int status)
    {
        if (f != NULL && fclose(f) != 0)
        {
            return -1;
        }
        return status;
    }

    int bmp_write(std::string filename, Image<RGB> input)
    {'''),
('r4','C07,C08',0,I,'''        if (fclose(fp) != 0)
        {
            return -1;
        }
        return 0;
    }

    unsigned char *array_to_raw_image(Image<RGB> input)''','''        return (fclose(fp) == 0) ? 0 : -1;
    }

    unsigned char *array_to_raw_image(Image<RGB> input)'''),
('r5','C07,C08',0,I,'''        auto image_data = TinyDIP::array_to_raw_image(input);
        if (image_data == NULL)
        {
            return -1;
        }
        auto sizex = input.getWidth();
        auto sizey = input.getHeight();
        auto result = TinyDIP::bmp_write(filename, sizex, sizey, image_data);
        free(image_data);
        return result;''','''        std::unique_ptr<unsigned char, decltype(&std::free)> image_data(TinyDIP::array_to_raw_image(input), &std::free);
        if (!image_data)
        {
            return -1;
        }
        return TinyDIP::bmp_write(filename, input.getWidth(), input.getHeight(), image_data.get());'''),
('r6','C07,C08',0,I,'''        unsigned char header[54];
        auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
        if (returnValue != 54)
        {
            printf("Fail to read file!\\n");
            fclose(fp);
            return -1;
        }
        unsigned long output;''','''        unsigned char header[54];
        auto read_header = [&]() { return fread(header, sizeof(unsigned char), sizeof(header), fp) == sizeof(header); };
        const bool ok = read_header();
        fclose(fp);
        if (!ok)
        {
            return -1;
        }
        fp = NULL;
        unsigned long output;''',0) if False else ('r6','C07,C08',0,I,'''            if (image == NULL)
            {
                std::cerr << "Memory allocation error!";
                fclose(fp);
                return TinyDIP::Image<double>(0, 0);
            }
''','''            auto fail = [&]() { free(image); fclose(fp); return TinyDIP::Image<double>(0, 0); };
            if (image == NULL)
            {
                std::cerr << "Memory allocation error!";
                return fail();
            }
'''),
('r7','C07,C08',0,H,'''            if (!file.flush())
            {
                throw std::runtime_error("Could not write to file: " + file_path.string());
            }
''','''            file.close();
            if (file.fail())
            {
                throw std::runtime_error("Could not write to file: " + file_path.string());
            }
'''),
('r8','C07,C08',0,H,'''            std::ofstream file(file_path, std::ios::binary);
            if (!file.is_open())
            {
                throw std::runtime_error("Could not open file for writing: " + file_path.string());
            }
''','''            std::ofstream file{ file_path, std::ios::binary };
            if (!file)
            {
                throw std::runtime_error("Could not open file for writing: " + file_path.string());
            }
'''),
]
