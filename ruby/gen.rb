# Models of types and values, built in a registry through the Ruby API.
class M
    attr_reader :kind, :name, :size, :a   # a: kind dependent
    attr_accessor :rb, :note, :box, :takes
    def initialize(kind, name, size, **a) @kind, @name, @size, @a = kind, name, size, a end
    def [](k) @a[k] end
    def inspect; "#{name}(#{kind})" end
    # true if the value is accessed through a converted Ruby object
    def converted?
        return true if box
        case kind
        when :bool, :string, :chars then true
        when :compound then self[:fields].any? { |_, _, t| t.converted? }
        when :array, :vector then self[:of].converted?
        else false
        end
    end
    def holds?(*kinds)
        return true if kinds.include?(kind)
        case kind
        when :compound then self[:fields].any? { |_, _, t| t.holds?(*kinds) }
        when :array, :vector then self[:of].holds?(*kinds)
        else false
        end
    end
    # All types this one is made of, itself first
    def parts
        case kind
        when :compound then [self] + self[:fields].flat_map { |_, _, t| t.parts }
        when :array, :vector then [self] + self[:of].parts
        else [self]
        end
    end
    # The value of zeroed memory
    def zero
        case kind
        when :int then 0
        when :float then 0.0
        when :bool then false
        when :enum then self[:symbols].key(0)   # nil when 0 is not a valid value
        when :string, :chars then ""
        when :vector then []
        when :array then Array.new(self[:n]) { self[:of].zero }
        when :compound then Hash[self[:fields].map { |n, _, t| [n, t.zero] }]
        end
    end
    # What encode made a string of; the string is consumed
    def decode(s)
        case kind
        when :int then s.slice!(0, size).unpack1(PACK[[size, self[:signed]]])
        when :float then s.slice!(0, size).unpack1(size == 4 ? 'e' : 'E')
        when :bool then s.slice!(0, 1) != "\0".b
        when :enum then self[:symbols].key(s.slice!(0, 4).unpack1('l<'))
        when :string then s.slice!(0, s.slice!(0, 8).unpack1('Q<')).force_encoding('UTF-8')
        when :vector then Array.new(s.slice!(0, 8).unpack1('Q<')) { self[:of].decode(s) }
        when :array then Array.new(self[:n]) { self[:of].decode(s) }
        when :compound then Hash[self[:fields].map { |n, _, ft| [n, ft.decode(s)] }]
        when :chars then s.slice!(0, size).sub(/\0.*/m, '').force_encoding('UTF-8')
        end
    end
    # Encoding of a model value as typelib marshals it (not memory: containers are a count and the elements)
    def encode(v)
        case kind
        when :int then [v].pack(PACK[[size, self[:signed]]])
        when :float then [v].pack(size == 4 ? 'e' : 'E')
        when :bool then v ? "\x01".b : "\0".b
        when :enum then [self[:symbols][v]].pack('l<')
        when :string then [v.bytesize].pack('Q<') + v.b
        when :vector then [v.size].pack('Q<') + v.map { |x| self[:of].encode(x) }.join
        when :array then v.map { |x| self[:of].encode(x) }.join.b
        when :compound then self[:fields].map { |n, _, ft| ft.encode(v[n]) }.join.b
        when :chars then v.b + "\0".b * (size - v.bytesize)
        end
    end
    PACK = { [1, true] => 'c', [1, false] => 'C', [2, true] => 's<', [2, false] => 'S<', [4, true] => 'l<', [4, false] => 'L<', [8, true] => 'q<', [8, false] => 'Q<' }
end
module Gen
    NUMS = [['/int32_t', 4, true], ['/int8_t', 1, true], ['/uint8_t', 1, false], ['/int16_t', 2, true], ['/uint16_t', 2, false], ['/uint32_t', 4, false], ['/int64_t', 8, true], ['/uint64_t', 8, false]]
    def basic(reg)
        NUMS.map { |n, s, u| M.new(:int, n, s, signed: u) } + [M.new(:float, '/double', 8), M.new(:float, '/float', 4), M.new(:bool, '/bool', 1), M.new(:string, '/std/string', 32)]
    end
    def attach(reg, *ts) ts.each { |t| t.rb = reg.get(t.name) } end
    # Adds up to n types to the registry; returns all models, the basic ones first
    def gen_types(reg, n, kinds = [:compound, :vector, :array, :enum, :chars], names = nil)
        pool = basic(reg); attach(reg, *pool)
        n.times do |i|
            k = pick(kinds); t = nil
            case k
            when :enum
                syms = {}; v = 0
                (flip(1, 30) ? range(5, 60) : range(1, 4)).times do |j|
                    v = weighted(3, 1, 1) == 0 ? v : pick([0, -1, 100, -2**31, 2**31 - 1, 7 + j])
                    v = -j if v > 2**31 - 1 || syms.has_value?(v)
                    next if syms.has_value?(v)
                    syms["S#{j}"] = v; v += 1
                end
                t = M.new(:enum, tname(i, names), 4, symbols: syms)
                t.rb = reg.create_enum(t.name) { |b| syms.each { |s, x| b.add(s, x) } }
            when :compound
                fields = []; off = 0
                down = flip(1, 3)   # names in decreasing order
                (flip(1, 30) ? range(6, 20) : range(1, 5)).times do |j|
                    ft = gen_pick(pool)
                    off += draw(3) if flip(1, 3)
                    fields << [fname(down ? 50 - j : j), off, ft]; off += ft.size
                end
                extra = flip(1, 3) ? draw(9) : 0
                t = M.new(:compound, tname(i, names), off + extra, fields: fields)
                t.rb = reg.create_compound(t.name, extra > 0 ? off + extra : 0) { |b| fields.each { |fn, o, ft| b.add(fn, ft.rb, o) } }
            when :array
                of = gen_pick(pool); n2 = range(1, 4)
                n2 = range(5, 70) if flip(1, 30) && of.size <= 8
                next if of.name == '/int8_t'
                t = M.new(:array, "#{of.name}[#{n2}]", of.size * n2, of: of, n: n2)
                t.rb = reg.build(t.name)
            when :vector
                of = gen_pick(pool)
                next if of.kind == :bool   # std::vector<bool> packs bits; typelib cannot describe it
                t = M.new(:vector, "/std/vector<#{of.name}>", 24, of: of)
                t.rb = reg.create_container('/std/vector', of.rb)
            when :chars
                n2 = flip(1, 20) ? range(10, 300) : range(2, 9)
                t = M.new(:chars, "/int8_t[#{n2}]", n2)
                t.rb = reg.build(t.name)
            end
            next if pool.any? { |x| x.name == t.name }
            yield t if block_given?
            pool << t
        end
        pool
    end
    def gen_pick(pool) flip(2, 3) && pool.size > 12 ? pool[12 + draw(pool.size - 12)] : pool[draw(pool.size)] end
    def tname(i, names) flip(1, 3) ? "/ns/T#{i}" : "/T#{i}" end
    def fname(j) "f#{j}" end
    def gen_int(t)
        bits = t.size * 8; lo, hi = t[:signed] ? [-(2**(bits - 1)), 2**(bits - 1) - 1] : [0, 2**bits - 1]
        case weighted(4, 2, 2)
        when 0 then range(0, 100)
        when 1 then pick([lo, hi, lo + 1, hi - 1, hi / 2 + 1, t[:signed] ? -1 : 1])
        else lo + draw64 % (hi - lo + 1)
        end
    end
    def gen_float(t)
        case weighted(4, 2, 2)
        when 0 then draw(200) / 4.0
        when 1 then pick([0.0, -0.0, 1.0, -1.5, Float::INFINITY, -Float::INFINITY, t.size == 4 ? 3.4028234663852886e38 : Float::MAX, t.size == 4 ? 1.401298464324817e-45 : 5.0e-324])
        else
            x = [draw64].pack('Q').unpack1('E'); x = 1.25 if x.nan?
            t.size == 4 ? (y = [x].pack('e').unpack1('e'); y) : x
        end
    end
    STR = ["", "a", "ab", "some text", "x" * 15, "y" * 16, "z" * 40, "with \"quotes\" <&>", "tab\tnl\n", "0", "h\u00e9", "\u65e5\u672c" * 6, "nul\0inside", " blanks  "]
    def gen_string; flip(1, 60) ? pick(['q', 'h\u00e9', "\0x"]) * range(100, 1500) : pick(STR) end
    def gen_value(t, depth = 0)
        case t.kind
        when :int then gen_int(t)
        when :float then gen_float(t)
        when :bool then flip
        when :enum then pick(t[:symbols].keys)
        when :string then gen_string.dup
        when :chars then s = ""; draw(t.size).times { s << pick(%w{a b Z 0 _}) }; s
        when :array then Array.new(t[:n]) { gen_value(t[:of], depth + 1) }
        when :vector
            v = Array.new(depth > 2 ? draw(3) : size(6)) { gen_value(t[:of], depth + 1) }
            range(1, 300).times { |k| v << Marshal.load(Marshal.dump(v[k % v.size])) } if depth < 2 && !v.empty? && t[:of].size <= 8 && flip(1, 50)
            v
        when :compound then Hash[t[:fields].map { |n, _, ft| [n, gen_value(ft, depth + 1)] }]
        end
    end
    # What to_simple_value gives for a model value
    def simple(t, v)
        case t.kind
        when :chars then v.bytes + [0] * (t.size - v.bytesize)
        when :array, :vector then v.map { |x| simple(t[:of], x) }
        when :compound then Hash[t[:fields].map { |n, _, ft| [n, simple(ft, v[n])] }]
        else v
        end
    end
    # A Ruby object that a field of type t accepts for v
    def ruby_form(t, v)
        return boxed(t, v) if t.takes && flip(2, 3)
        case t.kind
        when :enum then pick([v.to_sym, v, t[:symbols][v]])
        when :array, :vector
            flip(1, 4) ? typelib(t, v) : v.map { |x| ruby_form(t[:of], x) }
        when :compound
            case draw(3)
            when 0 then Hash[t[:fields].map { |n, _, ft| [flip ? n : n.to_sym, ruby_form(ft, v[n])] }]
            when 1 then t[:fields].map { |n, _, ft| ruby_form(ft, v[n]) }
            else typelib(t, v)
            end
        when :string, :chars then v.dup
        when :int then t.name == '/int8_t' && v.between?(0, 127) && flip(1, 4) ? v.chr : v   # a character
        else v
        end
    end
    # A fresh typelib value holding v
    def typelib(t, v)
        case t.kind
        when :compound
            r = t.rb.zero
            t[:fields].each { |n, _, ft| r.set(n, ruby_form(ft, v[n])) }
            r
        when :array
            r = t.rb.zero
            v.each_with_index { |x, i| r[i] = ruby_form(t[:of], x) }
            r
        when :vector
            r = t.rb.new
            v.each { |x| r.push(element_form(t[:of], x)) }
            r
        else Typelib.from_ruby(ruby_form(t, v), t.rb)
        end
    end
    # what push and [] = of a container take: numbers and enums as they are, typelib values for the rest
    def element_form(t, v)
        return boxed(t, v) if t.takes && flip(2, 3)
        case t.kind
        when :int, :float then v
        when :enum then flip(1, 3) ? typelib(t, v) : ruby_form(t, v)
        else typelib(t, v)
        end
    end
end
PBT::DSL.include Gen
