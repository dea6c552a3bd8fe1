H='image.h'
M=[
('i1','C02',1,H,'''                if (static_cast<std::size_t>(index) >= size[parameter_pack_index])''','''                if (static_cast<std::size_t>(index) > size[parameter_pack_index])'''),
('i2','C02',1,H,'''                parameter_pack_index = parameter_pack_index + 1;
            };

            (function''','''            };

            (function'''),
('i3','C02,C03',1,H,'''                position += index * stride;
                stride *= size[i++];''','''                position += index * stride;
                stride *= size[++i];'''),
('i4','C03',1,H,'''                index += static_cast<std::size_t>(idx) * stride;
                stride *= size[i++];
            }''','''                index += static_cast<std::size_t>(idx) * stride;
                stride = size[i++];
            }'''),
('i5','C02',1,H,'''if (index >= count())''','''if (index > count())'''),
('i6','C02',1,H,'''                if (std::cmp_greater_equal(index, size[parameter_pack_index]))
                {
                    return false;
                }''','''                if (std::cmp_greater(index, size[parameter_pack_index]))
                {
                    return false;
                }'''),
('i7','C03',1,H,'''                if (px == image_width)
                {
                    px = 0;
                    ++py;
                }
                return *this;
            }
            
''','''                if (px > image_width)
                {
                    px = 0;
                    ++py;
                }
                return *this;
            }
            
'''),
('i8','C02,C03',0,H,'''            std::size_t index = 0;
            std::size_t stride = 1;
            std::size_t i = 0;
            auto update_index = [&](std::size_t idx) 
            {
                index += idx * stride;
                stride *= size[i++];
            };
            (update_index(static_cast<std::size_t>(indices)), ...);
            return index;''','''            const std::array<std::size_t, sizeof...(Args)> idx{ static_cast<std::size_t>(indices)... };
            std::size_t index = 0;
            for (std::size_t k = sizeof...(Args); k > 0; --k)
            {
                index = index * size[k - 1] + idx[k - 1];
            }
            return index;'''),
('i9','C02,C03',0,H,'''            std::size_t parameter_pack_index = 0;
            auto function = [&](auto index) 
            {
                if (static_cast<std::size_t>(index) >= size[parameter_pack_index])
                {
                    throw std::out_of_range("Given index out of range!");
                }
                parameter_pack_index = parameter_pack_index + 1;
            };

            (function(indexInput), ...);''','''            auto it = std::ranges::cbegin(size);
            const bool inside = ((static_cast<std::size_t>(indexInput) < *it++) && ...);
            if (!inside)
            {
                throw std::out_of_range("Given index out of range!");
            }'''),
('i10','C02',0,H,'''            if (checkBoundaryTuple(location))
            {
                image_data[tuple_location_to_index(location)] = draw_value;
                return true;
            }
            return false;''','''            const bool inside = checkBoundaryTuple(location);
            if (!inside) { return false; }
            auto& slot = image_data[tuple_location_to_index(location)];
            slot = draw_value;
            return inside;'''),
('i11','C02',1,H,'''            if (checkBoundaryTuple(location))
            {
                image_data[tuple_location_to_index(location)] = draw_value;
                return true;
            }
            return false;''','''            checkBoundaryTuple(location);
            image_data[tuple_location_to_index(location)] = draw_value;
            return true;'''),
('i12','C03',1,H,'''for(std::size_t i = 0; i < index; ++i)
            {
                output *= size[i];''','''for(std::size_t i = 0; i < index; ++i)
            {
                output *= size[index - i];'''),
]
