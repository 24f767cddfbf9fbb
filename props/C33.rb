# C33: Ruby values are marshalled, swapped, cast, described and frozen.
# facet: marshal 2500 50000
# facet: buffers 1500 30000
# facet: simple 2500 40000
# facet: swap 2500 40000
# facet: csv 1500 30000
# facet: cast 2000 40000
# facet: frozen 2500 50000
# facet: refused 1500 20000
# rule: random types and values in fresh registries, some with changes pending in converted fields. marshal: to_byte_array under every combination of options against the encoding of the model, marshalling_size, from_buffer (instance, class and wrap). buffers: buffers cut or extended at a random place are refused. simple: to_simple_value and to_json_value with their options. swap: endian_swap and endian_swap! against the reversed numbers of the model. csv: header and line against the leaves. cast: casts, comparisons and copies to the same structure in another registry, under other names. frozen: histories of refused changes on a frozen value and its parts, before and after they are read. refused: what cannot be done (pointers, opaques, base classes, incompatible types) raises an exception. Non-trivial: the root is a compound, array or vector with at least three parts (a pointer or opaque in refused).
require 'gen'
require 'json'
module C33
    Spec = Struct.new(:reg, :pool)
    def c33_root(kinds = %i{compound vector compound vector array enum chars})
        reg = Typelib::Registry.new(false)
        Typelib::Registry.add_standard_cxx_types(reg)
        pool = gen_types(reg, range(1, 7), kinds)
        c = pool.select { |x| %i{compound array vector}.include?(x.kind) && yield(x) }
        t = c.empty? ? nil : flip(1, 3) ? c.last : c.reverse.max_by { |x| [x.parts.size, 16].min }
        nontrivial if t && t.parts.size >= 3
        t
    end
    # The type, its value m, and a wrapper of it, sometimes with changes still held by the converted fields
    def c33_value(t)
        m = gen_value(t)
        x = typelib(t, m)
        note { "#{describe(t)}: #{m.inspect}" }
        c33_pend(t, x, m) if flip
        return x, m
    end
    def c33_pend(t, x, m)
        return if t.kind != :compound
        t[:fields].each do |n, _, ft|
            next if !ft.converted? || !flip(1, 2)
            case draw(3)
            when 0
                v = gen_value(ft); note { "#{n} = #{v.inspect}" }
                x.send("#{n}=", c33_natural(ft, v)); m[n] = v
            when 1 # in place
                if ft.kind == :string then x.send(n) << "more"; m[n] += "more"; note { "#{n} << more" }
                elsif %i{array vector}.include?(ft.kind) && !m[n].empty?
                    i = draw(m[n].size); v = gen_value(ft[:of]); x.send(n)[i] = c33_natural(ft[:of], v); m[n][i] = v
                    note { "#{n}[#{i}] = #{v.inspect}" }
                end
            else c33_pend(ft, x.send(n), m[n]) if ft.kind == :compound
            end
        end
    end
    def c33_natural(t, v)
        case t.kind
        when :compound then typelib(t, v)
        when :enum then v.to_sym
        when :array, :vector then t.converted? ? v.map { |x| c33_natural(t[:of], x) } : typelib(t, v)
        else v.dup
        end
    end
    def describe(t)
        t.parts.map { |x| [x.name, x.kind == :compound ? [x.size] + x[:fields].map { |n, o, f| [n, o, f.name] } : x.kind == :enum ? x[:symbols] : nil] }.uniq.reject { |nm, d| !d && nm != t.name }.inspect
    end
    OPTIONS = [{}] + [true, false].product([true, false], [true, false], [true, false]).map { |m, r, p, o| { merge_skip_copy: m, remove_trailing_skips: r, accept_pointers: p, accept_opaques: o } }
    # true if the memory of values has no padding anywhere
    def packed?(t)
        case t.kind
        when :compound
            off = 0
            t[:fields].all? { |_, o, ft| r = o == off && packed?(ft); off = o + ft.size; r } && off == t.size
        when :array, :vector then packed?(t[:of])
        else true
        end
    end
    def trailing(t)
        case t.kind
        when :compound then n, o, ft = t[:fields].max_by { |_, o, ft| o + ft.size }; t.size - o - ft.size + trailing(ft)
        when :array then trailing(t[:of])
        else 0
        end
    end
    # With every number reversed
    def swapped(t, v)
        case t.kind
        when :vector then [v.size].pack('Q<') + v.map { |x| swapped(t[:of], x) }.join
        when :array then v.map { |x| swapped(t[:of], x) }.join.b
        when :compound then t[:fields].map { |n, _, ft| swapped(ft, v[n]) }.join.b
        when :int, :float, :enum then t.encode(v).reverse
        else t.encode(v)
        end
    end
    def bytes(x) x.to_byte_array(merge_skip_copy: false) end
    # The same types in another registry, compounds and enums under other names; pool of renamed models by name
    def rebuilt(reg, t, memo = {})
        memo[t.name] ||= begin
            n = case t.kind
                when :compound
                    fields = t[:fields].map { |fn, o, ft| [fn, o, rebuilt(reg, ft, memo)] }
                    M.new(:compound, "/other/#{t.name.delete('/')}", t.size, fields: fields).tap { |r| reg.create_compound(r.name, t.size) { |b| fields.each { |fn, o, ft| b.add(fn, ft.rb, o) } } }
                when :enum
                    M.new(:enum, "/other/#{t.name.delete('/')}", 4, symbols: t[:symbols]).tap { |r| reg.create_enum(r.name) { |b| t[:symbols].each { |s, v| b.add(s, v) } } }
                when :array then of = rebuilt(reg, t[:of], memo); M.new(:array, "#{of.name}[#{t[:n]}]", t.size, of: of, n: t[:n]).tap { |r| reg.build(r.name) }
                when :vector then of = rebuilt(reg, t[:of], memo); M.new(:vector, "/std/vector<#{of.name}>", 24, of: of).tap { |r| reg.create_container('/std/vector', of.rb) }
                when :chars then reg.build(t.name); M.new(:chars, t.name, t.size)
                else M.new(t.kind, t.name, t.size, **t.a)
                end
            n.rb = reg.get(n.name)
            n
        end
    end
    def float_same(a, b) a == b && 1.0 / a == 1.0 / b || a.nan? && b.nan? end
    def c33_float(x, how)
        case how
        when :nil then x.nan? || x.infinite? ? nil : x
        when :string then x.nan? ? "NaN" : x.infinite? ? (x > 0 ? "Infinity" : "-Infinity") : x
        else x
        end
    end
    # What to_simple_value gives with the options, given the options
    def described(t, v, got, opts, at)
        case t.kind
        when :compound
            equal(got.keys, t[:fields].map(&:first), "#{at} keys")
            t[:fields].each { |n, _, ft| described(ft, v[n], got[n], opts, "#{at}.#{n}") }
        when :array, :vector, :chars
            of = t.kind == :chars ? M.new(:int, '/int8_t', 1, signed: true) : t[:of]
            v = t.kind == :chars ? v.bytes + [0] * (t.size - v.bytesize) : v
            if opts[:pack_simple_arrays] && %i{int float bool}.include?(of.kind)
                equal(got.keys, %i{pack_code size data}, "#{at} keys"); equal(got[:size], v.size, "#{at} size")
                code = of.kind == :int ? M::PACK[[of.size, of[:signed]]] : of.kind == :bool ? 'C' : of.size == 4 ? 'e' : 'E'
                equal(got[:pack_code], code, "#{at} pack_code")
                l = got[:data].unpack1('m0').unpack("#{code}*")
                l.map! { |b| b != 0 } if of.kind == :bool
                check(l.size == v.size && l.zip(v).all? { |a, b| of.kind == :float ? float_same(a, b) : a == b }) { "#{at} packs #{l.inspect}, expected #{v.inspect}" }
            else
                check(got.kind_of?(Array) && got.size == v.size) { "#{at} is #{got.inspect}, expected #{v.size} elements" }
                v.each_with_index { |e, i| described(of, e, got[i], opts, "#{at}[#{i}]") }
            end
        when :float
            e = c33_float(v, opts[:special_float_values])
            check(e.kind_of?(Float) ? got.kind_of?(Float) && float_same(got, e) : got == e) { "#{at} is #{got.inspect}, expected #{e.inspect}" }
        else
            equal(got, v, at)
            check(t.kind != :bool || got == true || got == false) { "#{at} is #{got.inspect}" }
        end
    end
    def with_nan(t, v)
        case t.kind
        when :float then flip(1, 6) ? Float::NAN : v
        when :array, :vector then v.map { |x| with_nan(t[:of], x) }
        when :compound then Hash[t[:fields].map { |n, _, ft| [n, with_nan(ft, v[n])] }]
        else v
        end
    end
    def csv_leaves(t, v, path, out)
        case t.kind
        when :compound then t[:fields].each { |n, _, ft| csv_leaves(ft, v[n], "#{path}.#{n}", out) }
        when :array then v.each_with_index { |x, i| csv_leaves(t[:of], x, "#{path}[#{i}]", out) }
        when :chars then (v.bytes + [0] * (t.size - v.bytesize)).each_with_index { |x, i| out << ["#{path}[#{i}]", :int, x] }
        else out << [path, t.kind, v]
        end
    end
end
PBT::DSL.include C33
PBT.facet("marshal") do
    t = c33_root { true } or next
    x, m = c33_value(t)
    enc = t.encode(m)
    first = draw(4)
    equal(x.marshalling_size, x.to_byte_array.bytesize, "marshalling_size") if first == 0
    opts = pick(C33::OPTIONS); note { opts.inspect }
    b = x.to_byte_array(opts)
    check(b.encoding == Encoding::BINARY) { "to_byte_array gives a string in #{b.encoding}" }
    if opts[:merge_skip_copy] == false && opts[:remove_trailing_skips] then equal(b, enc, "to_byte_array(#{opts})")
    elsif packed?(t) then label("packed"); equal(b, enc, "to_byte_array(#{opts}) of a type without padding")
    else check(b.bytesize >= enc.bytesize) { "to_byte_array(#{opts}) gives #{b.bytesize} bytes, at least #{enc.bytesize} are needed" }
    end
    y = t.rb.from_buffer(b, opts)
    equal(bytes(y), enc, "from_buffer(#{opts})")
    # over another value
    z = typelib(t, gen_value(t))
    equal(z.from_buffer(b, opts), z, "what from_buffer returns")
    equal(bytes(z), enc, "from_buffer(#{opts}) over another value")
    equal(z.to_simple_value, simple(t, m), "to_simple_value after from_buffer")
    if opts.empty?
        equal(x.marshalling_size, b.bytesize, "marshalling_size")
        equal(bytes(t.rb.wrap(b)), enc, "wrap of a buffer")
        z = t.rb.new
        z.from_buffer_direct(b)
        equal(bytes(z), enc, "from_buffer_direct")
    end
    equal(bytes(x), enc, "the value after all this")
end
PBT.facet("buffers") do
    t = c33_root { true } or next
    x, m = c33_value(t)
    opts = pick(C33::OPTIONS)
    b = x.to_byte_array(opts)
    next if b.empty?
    # padding that follows the value may be there
    bad = flip ? b[0, draw(b.bytesize)] : b + "\1" * (trailing(t) + range(1, 9))
    note { "#{opts.inspect}: #{b.bytesize} bytes, then #{bad.bytesize}" }
    y = typelib(t, gen_value(t))
    refused("from_buffer of #{bad.bytesize} bytes for #{b.bytesize}", ArgumentError) { y.from_buffer(bad, opts) }
    refused("from_buffer of #{bad.bytesize} bytes for #{b.bytesize}", ArgumentError) { t.rb.from_buffer(bad, opts) }
    # the refused value can still be used
    y.to_byte_array if flip
    y.from_buffer(b, opts)
    equal(bytes(y), t.encode(m), "from_buffer after a refused one")
end
PBT.facet("simple") do
    t = c33_root { true } or next
    m = with_nan(t, gen_value(t))
    x = typelib(t, m)
    note { "#{describe(t)}: #{m.inspect}" }
    c33_pend(t, x, m) if flip
    opts = {}
    opts[:pack_simple_arrays] = flip if flip(2, 3)
    opts[:special_float_values] = pick([:nil, :string, nil]) if flip(2, 3)
    note { opts.inspect }
    described(t, m, x.to_simple_value(opts), opts, "value")
    j = x.to_json_value(opts)
    jopts = { special_float_values: :nil }.merge(opts)
    described(t, m, j, jopts, "json value")
    JSON.generate(j) if jopts[:special_float_values] == :nil || jopts[:special_float_values] == :string
    check(x.inspect.include?(t.name)) { "inspect gives #{x.inspect}" }
end
PBT.facet("swap") do
    t = c33_root { true } or next
    x, m = c33_value(t)
    enc = t.encode(m); sw = swapped(t, m)
    if t.holds?(:vector, :string)
        refused("endian_swap of a value with containers", ArgumentError) { x.endian_swap }
    else
        y = x.endian_swap
        check(y.class == t.rb) { "endian_swap gives a #{y.class}" }
        equal(bytes(y), sw, "endian_swap")
        equal(bytes(x), enc, "the value after endian_swap")
        equal(bytes(y.endian_swap), enc, "endian_swap twice")
        label("copy")
    end
    equal(x.endian_swap!, x, "what endian_swap! returns") if !t.holds?(:enum)
    x.endian_swap! if t.holds?(:enum)
    equal(bytes(x), sw, "endian_swap!")
    x.endian_swap!
    equal(bytes(x), enc, "endian_swap! twice")
    equal(x.to_simple_value, simple(t, m), "to_simple_value after endian_swap! twice")
end
PBT.facet("csv") do
    t = c33_root(%i{compound array enum chars array compound}) { |k| !k.holds?(:vector, :string) } or next
    x, m = c33_value(t)
    sep = pick([nil, " ", ",", ";", " | "]); base = pick([nil, "", "t", "a.b"])
    l = []; csv_leaves(t, m, base || "", l)
    note { "separator #{sep.inspect} name #{base.inspect}" }
    h = sep ? t.rb.to_csv(base || "", sep) : base ? t.rb.to_csv(base) : t.rb.to_csv
    equal(h, l.map(&:first).join(sep || " "), "header")
    line = sep ? x.to_csv(sep) : x.to_csv
    cols = line.split(sep || " ", -1)
    equal(cols.size, l.size, "columns of #{line.inspect}")
    cols.zip(l).each do |c, (path, kind, v)|
        case kind
        when :int then equal(c, v.to_s, path)
        when :bool then equal(c, v ? "1" : "0", path)
        when :enum then equal(c, v, path)
        else
            g = c == "inf" ? Float::INFINITY : c == "-inf" ? -Float::INFINITY : Float(c)
            # (Ruby packs what lies just above the largest single as infinity)
            g = [g].pack('e').unpack1('e') if g != v && g.abs < 3.4028234663852886e38
            g = v if g.abs == 3.40282347e+38 && v.abs == 3.4028234663852886e38 && (g > 0) == (v > 0)
            check(float_same(g, v)) { "#{path} reads #{c}, expected #{v}" }
        end
    end
end
PBT.facet("cast") do
    t = c33_root { true } or next
    x, m = c33_value(t)
    reg = Typelib::Registry.new(false)
    Typelib::Registry.add_standard_cxx_types(reg)
    o = rebuilt(reg, t)
    check(t.rb.casts_to?(o.rb)) { "#{t.name} does not cast to #{o.name}" }
    how = draw(4); note { "(#{how})" }
    case how
    when 0
        y = x.cast(o.rb)
        check(y.kind_of?(o.rb)) { "cast gives a #{y.class}" }
        equal(y.to_simple_value, simple(t, m), "the cast value")
        check(y == typelib(o, m)) { "the cast value differs from #{m.inspect}" }
        # both look at the same memory (but the wrappers of the elements of containers are those of one view, see DESIGN.md)
        next if t.holds?(:vector, :string)
        v = gen_value(t)
        y.from_buffer(typelib(o, v).to_byte_array)
        x.invalidate_changes_from_converted_types
        equal(bytes(x), t.encode(v), "the value after its cast was modified")
        equal(x.cast(t.rb).to_simple_value, simple(t, v), "cast to its own type")
    when 1
        y = o.rb.zero
        check(Typelib.copy(y, x).equal?(y)) { "copy does not return its first argument" }
        equal(bytes(y), t.encode(m), "the copy in another registry")
        equal(bytes(x), t.encode(m), "the value after being copied")
        check(x == y && y == x && Typelib.compare(x, y)) { "a copy differs from the original" }
    when 2
        v = flip ? m : gen_value(t)
        y = typelib(o, v)
        equal(x == y, m == v, "comparison of #{m.inspect} and #{v.inspect}") if t.encode(v) == t.encode(m) || !t.holds?(:float)
        check(x == x.dup && x == x) { "a value differs from itself" }
        check(x.memory_eql?(x)) { "a value is not memory_eql? to itself" }
    else
        s = t.parts.find { |k| k.kind == :compound || k.kind == :enum || k.kind == :array }
        bad = Typelib::Registry.new(false)
        Typelib::Registry.add_standard_cxx_types(bad)
        b = bad.create_compound('/Other') { |c| c.add 'a', '/int32_t'; c.add 'b', '/double', t.size + 16 }
        check(!t.rb.casts_to?(b)) { "#{t.name} casts to another structure" }
        refused("cast to another structure", ArgumentError) { x.cast(b) }
        refused("copy to another structure", ArgumentError) { Typelib.copy(b.new, x) }
        refused("comparison with another structure", ArgumentError) { x == b.new }
        check(!x.memory_eql?(b.new)) { "memory_eql? to a value of another size" }
        equal(bytes(x), t.encode(m), "the value")
    end
end
module C33
    # A change to a part of x, which is frozen
    def frozen_write(t, x, m)
        v = gen_value(t)
        case draw(t.kind == :compound || t.kind == :array || t.kind == :vector ? 10 : 4)
        when 0 then refused("from_buffer", TypeError) { x.from_buffer(typelib(t, v).to_byte_array) }
        when 1 then refused("zero!", TypeError) { x.zero! }
        when 2 then refused("copy", TypeError) { Typelib.copy(x, typelib(t, v)) }
        when 3 then refused("endian_swap!", TypeError) { x.endian_swap! }
        else
            case t.kind
            when :compound
                n, _, ft = pick(t[:fields]); v = gen_value(ft)
                note { "#{n} <- #{v.inspect}" }
                refused("assignment of #{n}", TypeError) do
                    case draw(6)
                    when 0 then x.set(n, ruby_form(ft, v))
                    when 1 then x[n] = ruby_form(ft, v)
                    when 2 then x.send("#{n}=", ft.converted? ? c33_natural(ft, v) : ruby_form(ft, v))
                    when 3 then x.raw_set(n, typelib(ft, v))
                    when 4 then x.send("raw_#{n}=", typelib(ft, v))
                    else x.set_field(n, ruby_form(ft, v))
                    end
                end
            when :array
                i = draw(m.size); v = gen_value(t[:of])
                refused("[#{i}]=", TypeError) { flip ? x[i] = ruby_form(t[:of], v) : x.raw_set(i, typelib(t[:of], v)) }
            else
                v = gen_value(t[:of]); of = t[:of]
                op = draw(m.empty? ? 4 : 6)
                note { "operation #{op} of a container" }
                refused("operation #{op} of a container", TypeError) do
                    case op
                    when 0 then x.push(element_form(of, v))
                    when 1 then x << element_form(of, v)
                    when 2 then x.concat([element_form(of, v)])
                    when 3 then x.clear
                    when 4 then x[draw(m.size)] = element_form(of, v)
                    else x.delete_if { true }
                    end
                end
            end
        end
    end
    # A part of x through the raw accessors
    def part(t, x, m)
        case t.kind
        when :compound then n, _, ft = pick(t[:fields]); [ft, x.raw_get(n), m[n]]
        when :array, :vector then return [t, x, m] if m.empty?; i = draw(m.size); [t[:of], x.raw_get(i), m[i]]
        else [t, x, m]
        end
    end
end
PBT.facet("frozen") do
    t = c33_root { true } or next
    x, m = c33_value(t)
    if flip # some wrappers exist already
        x.apply_changes_from_converted_types
        range(1, 3).times { part(*part(t, x, m)) }
    end
    equal(x.to_simple_value, simple(t, m), "to_simple_value") if flip
    check(!x.frozen?) { "frozen? of a fresh value" }
    check(x.freeze.equal?(x) && x.frozen?) { "freeze" }
    (2 + size(12)).times do
        k, y, v = t, x, m
        draw(3).times { k, y, v = part(k, y, v) }
        case weighted(4, 2, 1)
        when 0 then frozen_write(k, y, v)
        when 1
            equal(y.to_simple_value, simple(k, v), "a part of a frozen value")
            equal(bytes(y), k.encode(v), "the bytes of a part of a frozen value")
        else
            # objects that are read from the value are not the value
            if k.kind == :compound
                n, _, ft = pick(k[:fields]); r = y.send(n)
                if ft.kind == :string && !r.frozen? then r << "more" elsif %i{array vector}.include?(ft.kind) && r.kind_of?(Array) && !r.frozen? then r.clear end
            end
            d = y.dup
            check(!d.frozen?) { "the copy of a frozen value is frozen" }
            nv = gen_value(k); d.from_buffer(typelib(k, nv).to_byte_array)
            equal(bytes(d), k.encode(nv), "a modified copy of a frozen value")
        end
        check(y.frozen?) { "a part of a frozen value is not frozen" }
        equal(bytes(x), t.encode(m), "the frozen value") if flip
    end
    equal(bytes(x), t.encode(m), "the frozen value")
    equal(x.to_simple_value, simple(t, m), "to_simple_value of the frozen value")
end
PBT.facet("refused") do
    reg = Typelib::Registry.new(false)
    Typelib::Registry.add_standard_cxx_types(reg)
    pool = gen_types(reg, range(1, 4))
    inner = gen_pick(pool)
    fault = draw(3)
    part = fault == 0 ? reg.build("#{inner.name}*") : fault == 1 ? reg.create_opaque("/Opaque", range(1, 16)) : reg.create_null("/Nothing")
    a = flip ? gen_pick(pool) : nil
    t = case draw(fault == 2 ? 1 : 4)
        when 0, 1 then reg.create_compound('/Bad') { |c| c.add('a', a.rb) if a; c.add('p', part); c.add('z', '/int32_t') if flip }
        when 2 then reg.create_container('/std/vector', part)
        else reg.build("#{part.name}[#{range(1, 3)}]")
        end
    note { "#{t.name} of #{part.name} (#{inner.name}, #{fault})" }
    nontrivial
    all = [ArgumentError, TypeError, RuntimeError, NotImplementedError]
    base = pick([Typelib::CompoundType, Typelib::ArrayType, Typelib::NumericType, Typelib::EnumType, Typelib::ContainerType, Typelib::PointerType, Typelib::IndirectType, Typelib::OpaqueType, Typelib::NullType, Typelib::Type])
    quietly = proc { |&b| begin; b.call; rescue *all, NoMethodError; end }
    quietly.call { base.new }
    quietly.call { base.zero }
    %i{length integer? unsigned? size container_kind natural_size random_access? deference keys}.each { |s| quietly.call { base.send(s) } if base.respond_to?(s) }
    if base.respond_to?(:value_of) then quietly.call { base.value_of('A') }; quietly.call { base.name_of(1) } end
    refused("memory_layout", ArgumentError) { t.memory_layout } if t < Typelib::CompoundType || t < Typelib::ArrayType
    if fault > 0
        refused("memory_layout", ArgumentError) { t.memory_layout(accept_pointers: true) } if !(t < Typelib::ContainerType)
        refused("new", *all) { t.new }
        refused("zero", *all) { t.zero }
        next
    end
    x = flip ? t.new : t.zero; y = t.zero
    if t < Typelib::ContainerType
        e = part.zero
        refused("push", ArgumentError) { x.push(e) }
        equal(x.size, 0, "size after a refused push")
        equal(x.to_byte_array(accept_pointers: true), "\0".b * 8, "to_byte_array")
        refused("to_byte_array", ArgumentError) { x.to_byte_array }
    else
        refused("to_byte_array", ArgumentError) { x.to_byte_array }
        refused("from_buffer", ArgumentError) { x.from_buffer("\0" * t.size) }
        refused("endian_swap", ArgumentError) { x.endian_swap }
        refused("endian_swap!", ArgumentError) { x.endian_swap! }
        refused("copy", ArgumentError) { Typelib.copy(x, y) }
        refused("dup", ArgumentError) { x.dup }
        b = y.to_byte_array(accept_pointers: true)
        x.from_buffer(b, accept_pointers: true)
        x.zero!
        equal(x.to_byte_array(accept_pointers: true), b, "zero!") if !a || !a.holds?(:enum) # enums start with one of their values
        x.to_csv
        refused("to_simple_value", NotImplementedError) { x.to_simple_value }
        p = t < Typelib::CompoundType ? x.raw_p : x.raw_get(0)
        check(p.null?) { "a zeroed pointer is not null" }
        refused("deference of null", ArgumentError) { p.deference }
        check(part.create_null.null?) { "create_null is not null" }
        v = typelib(inner, gen_value(inner)); q = v.to_ptr
        equal(bytes(q.deference), bytes(v), "what to_ptr points to")
        Typelib.copy(q, q) rescue nil
    end
end
