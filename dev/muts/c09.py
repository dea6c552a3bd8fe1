I="image_io.cpp"; H="image_io.h"
M=[
('w1','C09',1,I,"output[3 * (y * xsize + x) + y * FillingByte + (2 - color)]\n                    = input","output[3 * (y * xsize + x) + y * FillingByte + color]\n                    = input"),
('w2','C09',1,I,"output[3 * (y * xsize + x) + y * FillingByte + (2 - color)]\n                    = input","output[3 * (y * xsize + x) + (2 - color)]\n                    = input"),
('w3','C09',1,I,"static_cast<std::size_t>(y)).channels[color];","ysize - 1 - static_cast<std::size_t>(y)).channels[color];",0),
('h1','C09',1,I,"header[19] = (width >> 8) &0x000000ff;","header[19] = 0;"),
('h2','C09',1,I,"header[25] = (height >> 24) & 0x000000ff;","header[25] = (height >> 16) & 0x000000ff;",0),
('h3','C09',1,I,"header[20] = (width >> 16) & 0x000000ff;","header[20] = (width >> 8) & 0x000000ff;",1),
('x1','C09',1,I,"((unsigned long)header[24] << 16)","((unsigned long)header[24] << 8)"),
('x2','C09',1,I,"output= header[22] +","output= header[23] +"),
('d1','C09',1,I,"image[(y * OriginSizeX + x) + y * FillingByte];","image[(y * OriginSizeX + x)];"),
('d2','C09',1,I,"FillingByte = bmp_filling_byte_calc(xsize, 8);","FillingByte = bmp_filling_byte_calc(xsize, 4);",0),
('d3','C09',1,I,"unsigned char FillingByte = bmp_filling_byte_calc(OriginSizeX, 8);","unsigned char FillingByte = bmp_filling_byte_calc(OriginSizeX);"),
('v1','C09',1,I,"image[3 * (y * OriginSizeX + x) + y * filling_bytes + (2 - channel_index)];","image[3 * (y * OriginSizeX + x) + y * filling_bytes + channel_index];"),
('v2','C09',1,I,"const size_t image_size = (size_t)(long)(xsize * 3 + FillingByte) * ysize;","const size_t image_size = (size_t)(long)(xsize * 3) * ysize;",1),
('v3','C09',1,I,"const size_t image_size = (size_t)(long)(xsize * 3 + FillingByte) * ysize;","const size_t image_size = (size_t)(long)(xsize * 3) * ysize;",0),
('p1','C09',1,H,"const std::size_t flipped_y = height - 1 - y;\n                \n                for","const std::size_t flipped_y = y;\n                \n                for"),
('p2','C09',1,H,"<< +pixel.channels[1] << ' ' ","<< +pixel.channels[2] << ' ' "),
('p3','C09',1,H,"file << +pixel.channels[0] << '\\n';","file << pixel.channels[0] << '\\n';"),
('p4','C09',1,H,"const std::size_t base_idx = i * 3;","const std::size_t base_idx = i + 2 * width;"),
('p5','C09',1,H,"const int val = (raw_data[i] == 0) ? 1 : 0;","const int val = (raw_data[i] == 0) ? 0 : 1;"),
('p6','C09',1,H,"file << width << ' ' << height << '\\n';","file << height << ' ' << width << '\\n';"),
('p7','C09',1,H,"const int shift_bit = outbits - in_bits;","const int shift_bit = outbits - in_bits - 1;",1),
('p8','C09',1,H,"file << val << '\\n';","file << val;"),
('p9','C09',1,H,"const int in_bits = static_cast<int>(std::log2(max_value + 1));","const int in_bits = static_cast<int>(std::log2(max_value));",0),
# behaviour preserved
('e1','C09',0,I,"""        for(int y = 0;y<ysize;y++)
        {
            for(int x = 0;x<xsize;x++)
            {
                for (int color = 0; color < 3; color++) {
                    output[3 * (y * xsize + x) + y * FillingByte + (2 - color)]
                    = input.at(static_cast<std::size_t>(x), static_cast<std::size_t>(y)).channels[color];
                }
            }
        }""","""        const std::size_t stride = xsize * 3 + FillingByte;
        for(std::size_t x = 0;x<xsize;++x)
        {
            for(std::size_t y = 0;y<ysize;++y)
            {
                const auto& p = input.at(x, y);
                unsigned char* q = output + y * stride + 3 * x;
                q[2] = p.channels[0];
                q[1] = p.channels[1];
                q[0] = p.channels[2];
            }
        }"""),
('e2','C09',0,I,"image[(y * OriginSizeX + x) + y * FillingByte];","image[y * (OriginSizeX + FillingByte) + x];"),
('e3','C09',0,I,"""        header[18] = width & 0x000000ff;
        header[19] = (width >> 8) &0x000000ff;
        header[20] = (width >> 16) &0x000000ff;
        header[21] = (width >> 24) &0x000000ff;
""","""        for (int i = 0; i < 4; ++i)
        {
            header[18 + i] = (width >> (8 * i)) & 0xff;
        }
"""),
('e4','C09',0,H,"""                        file << +pixel.channels[0] << ' ' 
                            << +pixel.channels[1] << ' ' 
                            << +pixel.channels[2] << '\\n';""","""                        for (std::size_t c = 0; c < 3; ++c)
                        {
                            file << static_cast<int>(pixel.channels[c]);
                            file << (c == 2 ? '\\n' : ' ');
                        }"""),
('e5','C09',0,H,"const std::size_t flipped_y = height - 1 - y;\n                \n                for","const std::size_t flipped_y = (height - y) - 1;\n                \n                for"),
]
