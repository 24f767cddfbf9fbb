# C30: values as seen from Ruby.
# facet: assign 3000 60000
# facet: history 3000 60000
# facet: refused 1500 20000
# facet: pointers 1500 20000
# facet: create 2000 30000
# facet: strings 1000 15000
# rule: random types (numbers, booleans, enums, strings, char arrays, arrays, vectors, compounds, nested) in a fresh registry. assign: a value built from Ruby objects of every accepted form reads back the same. history: a root value and a model of plain Ruby data; random reads and writes at random places through every accessor form (field methods, get/set, [] and []=, raw_ forms, hashes, arrays, typelib values, element pushes, concat, erase, delete_if, clear, dup, copy); after each step the whole value equals the model. refused: assignments that cannot be done (unknown field or symbol, wrong class, wrong number of elements, index out of bounds, string too long, number too big) raise an exception and change nothing. pointers: compounds and arrays that hold pointers to values that are kept, null ones and pointers to characters included, read in random orders and forms, before and after the values they point to change, and with refused assignments. create: values made with new, create, zero, from an address, bytes or memory. strings: histories on std::string values that are not converted. Non-trivial: the root holds a compound (assign, create), at least four writes or steps (history, strings), or two pointers that are not null (pointers).
require 'gen'
module C30
    def root(pool)
        c = pool.select { |x| %i{compound array vector}.include?(x.kind) }
        flip(1, 3) ? c.last : c.reverse.max_by { |x| [x.parts.size, 20].min }
    end
    def fresh(n = range(2, 9))
        reg = Typelib::Registry.new(false)
        Typelib::Registry.add_standard_cxx_types(reg)
        pool = gen_types(reg, n, %i{compound vector compound vector array enum chars})
        return reg, pool
    end
    def describe(t)
        t.parts.map { |x| [x.name, x.kind == :compound ? x[:fields].map { |n, o, f| [n, o, f.name] } : x.kind == :enum ? x[:symbols] : nil] }.uniq.reject { |nm, d| !d && nm != t.name }.inspect
    end
    # Typelib wrapper of the value at the path, read through the raw accessors, and the model container holding it
    # What a getter gives for a model value
    def seen(t, v, got, how)
        # a wrapper equals its value
        check(!got.kind_of?(Typelib::Type)) { "#{how} gives the wrapper #{PBT.short(got)}" } if %i{enum int float bool string chars}.include?(t.kind)
        case t.kind
        when :enum then equal(got, v && v.to_sym, how)
        when :int, :float, :bool, :string, :chars then equal(got, v, how)
        when :compound, :array, :vector
            if got.kind_of?(Typelib::Type) then equal(got.to_simple_value, simple(t, v), how)
            elsif t.kind == :compound then fail!("#{how}: got #{PBT.short(got)}")
            else
                check(got.kind_of?(Array) && got.size == v.size) { "#{how}: got #{PBT.short(got)}, expected #{PBT.short(v)}" }
                got.each_with_index { |x, i| seen(t[:of], v[i], x, "#{how}[#{i}]") }
            end
        end
    end
    def raw_seen(t, v, got, how)
        check(got.kind_of?(t.rb)) { "#{how} is #{PBT.short(got)}, not a #{t.name}" }
        equal(got.to_simple_value, simple(t, v), how)
    end
    def read(t, x, m)
        case t.kind
        when :compound
            n, _, ft = pick(t[:fields])
            how = draw(8)
            x.apply_changes_from_converted_types if [4, 5].include?(how)
            case how
            when 0 then seen(ft, m[n], x.get(n), ".get('#{n}')")
            when 1 then seen(ft, m[n], x[n], "['#{n}']")
            when 2 then seen(ft, m[n], x[n.to_sym], "[:#{n}]")
            when 3 then seen(ft, m[n], x.send(n), ".#{n}")
            when 4 then raw_seen(ft, m[n], x.raw_get(n), ".raw_get('#{n}')")
            when 5 then raw_seen(ft, m[n], x.send("raw_#{n}"), ".raw_#{n}")
            when 6 then seen(ft, m[n], x.get_field(n), ".get_field('#{n}')")
            else
                names = []
                x.each_field { |fn, fv| names << fn; seen(t[:fields].find { |k, _| k == fn }[2], m[fn], fv, "each_field #{fn}") }
                equal(names, t[:fields].map(&:first), "names of each_field")
                names = []
                x.apply_changes_from_converted_types
                x.raw_each_field { |fn, fv| names << fn; raw_seen(t[:fields].find { |k, _| k == fn }[2], m[fn], fv, "raw_each_field #{fn}") }
                equal(names, t[:fields].map(&:first), "names of raw_each_field")
            end
        when :array, :vector
            equal(x.size, m.size, "size")
            case draw(6)
            when 0 then m.each_with_index { |v, i| seen(t[:of], v, x[i], "[#{i}]") }
            when 1 then m.each_with_index { |v, i| raw_seen(t[:of], v, x.raw_get(i), "raw_get(#{i})") }
            when 2 then l = []; x.each { |e| l << e }; equal(l.size, m.size, "number of elements yielded by each"); l.each_with_index { |e, i| seen(t[:of], m[i], e, "each #{i}") }
            when 3 then l = []; x.raw_each { |e| l << e }; equal(l.size, m.size, "number of elements yielded by raw_each"); l.each_with_index { |e, i| raw_seen(t[:of], m[i], e, "raw_each #{i}") }
            when 4
                i = draw(m.size + 1); n = draw(m.size - i + 1)
                r = x[i, n]
                if t.kind == :array then equal(r.size, n, "[#{i}, #{n}].size"); r.each_with_index { |e, k| seen(t[:of], m[i + k], e, "[#{i}, #{n}][#{k}]") }
                else raw_seen(t, m[i, n], r, "[#{i}, #{n}]") end
            else
                i = pick([m.size, -1, m.size + 5])
                next_err = refused("reading element #{i} of #{m.size}", ArgumentError, IndexError, TypeError) { x.raw_get(i) }
            end
        end
    end
    # Writes below x (a wrapper of type t with model m, a Hash or Array), in place
    # A converted field is backed by the Ruby object that was last read or assigned; raw accesses below it come after
    # dropping this object, as the API asks for.
    def sync(x)
        x.apply_changes_from_converted_types
        x.invalidate_changes_from_converted_types
    end
    # What reading a converted field gives
    def natural(t, v)
        case t.kind
        when :compound then typelib(t, v)
        when :enum then v.to_sym
        when :array, :vector then t.converted? ? v.map { |x| natural(t[:of], x) } : typelib(t, v)
        else v.dup
        end
    end
    def write(t, x, m)
        case t.kind
        when :compound
            n, _, ft = pick(t[:fields])
            if !%i{int float bool enum string chars}.include?(ft.kind) && flip(2, 3)
                sync(x)
                return write(ft, x.raw_get(n), m[n])
            end
            # What the field method gives is the field: changes to it, whatever happens in between, are changes to the value
            if (ft.kind == :string || (%i{array vector}.include?(ft.kind) && ft.converted?)) && flip(1, 3)
                held = x.send(n)
                between = draw(5); note { "#{t.name}.#{n} changed in place (#{between})" }
                case between
                when 0 then equal(x.dup.to_simple_value, simple(t, m), "dup before the change")
                when 1 then equal(x.to_simple_value, simple(t, m), "to_simple_value before the change")
                when 2 then seen(ft, m[n], x.get(n), ".get('#{n}') before the change")
                when 3 then x.to_byte_array
                end
                if ft.kind == :string then held << "more"; m[n] += "more"
                elsif ft.kind == :vector && (m[n].empty? || flip) then v = gen_value(ft[:of]); held << natural(ft[:of], v); m[n] << v
                else i = draw(m[n].size); v = gen_value(ft[:of]); held[i] = natural(ft[:of], v); m[n][i] = v
                end
                return
            end
            v = gen_value(ft)
            how = draw(7)
            note { "#{t.name}.#{n} <- #{v.inspect} (#{how})" }
            case how
            when 0 then x.set(n, ruby_form(ft, v))
            when 1 then x[n] = ruby_form(ft, v)
            when 2 then x[n.to_sym] = ruby_form(ft, v)
            when 3 then x.send("#{n}=", ft.converted? ? natural(ft, v) : ruby_form(ft, v))
            when 4 then x.raw_set(n, typelib(ft, v))
            when 5 then x.send("raw_#{n}=", typelib(ft, v))
            else x.set_field(n, ruby_form(ft, v))
            end
            m[n] = v
        when :array, :vector
            of = t[:of]; i = m.empty? ? 0 : draw(m.size)
            if !m.empty? && %i{compound array vector}.include?(of.kind) && flip(1, 2)
                return write(of, x.raw_get(i), m[i])
            end
            v = gen_value(of)
            if t.kind == :array
                note { "#{t.name}[#{i}] <- #{v.inspect}" }
                flip ? x[i] = ruby_form(of, v) : x.raw_set(i, typelib(of, v))
                m[i] = v
            else
                how = draw(9)
                note { "#{t.name} op #{how}, #{i}, #{v.inspect}" }
                case how
                when 0 then x.push(element_form(of, v)); m.push(v)
                when 1 then x << element_form(of, v); m << v
                when 2 then l = Array.new(draw(4)) { gen_value(of) }; x.concat(l.map { |e| element_form(of, e) }); m.concat(l)
                when 3 then x.clear; m.clear
                when 4
                    return if m.empty?
                    x[i] = element_form(of, v); m[i] = v
                when 5
                    return if m.empty?
                    x.raw_set(i, element_form(of, v)); m[i] = v
                when 6
                    k = 0; mask = draw(64)
                    x.delete_if { |e| seen(of, m[k], e, "element #{k} given to delete_if"); k += 1; mask[(k - 1) % 6] == 1 }
                    equal(k, m.size, "elements passed to delete_if")
                    k = -1; m.delete_if { k += 1; mask[k % 6] == 1 }
                when 7
                    return if m.empty?
                    # the first element which is equal
                    at = m.index { |e| same(of, e, m[i]) }
                    r = x.erase(element_form(of, m[i]))
                    equal(r, true, "erase of element #{i}")
                    m.delete_at(at)
                else x.concat(Array.new(20) { element_form(of, v) }); 20.times { m << Marshal.load(Marshal.dump(v)) }
                end
            end
        end
    end
    # The whole value equals the model, whichever way it is looked at
    def observe(t, x, m)
        case draw(6)
        when 0 then y = t.rb.from_buffer(x.to_byte_array); how = "to_byte_array"
        when 1 then y = x.dup; how = "dup"
        when 2 then check(x == typelib(t, m)) { "after the last step, the value differs from #{m.inspect}" }; return
        when 3 then Typelib.copy(y = t.rb.zero, x); how = "Typelib.copy"
        when 4 then y = Typelib.from_ruby(x.to_simple_value, t.rb) if !t.holds?(:enum, :chars); how = "conversion of to_simple_value"
        end
        equal((y || x).to_simple_value, simple(t, m), "#{how ? "what #{how} gives" : "to_simple_value"} after the last step")
    end
    def same(t, a, b) t.encode(a) == t.encode(b) end
    def clone_model(m) Marshal.load(Marshal.dump(m)) end
end
PBT::DSL.include C30
PBT.facet("assign") do
    reg, pool = fresh
    t = pool.last
    v = gen_value(t)
    note { "#{describe(t)} <- #{v.inspect}" }
    x = typelib(t, v)
    equal(x.to_simple_value, simple(t, v), "to_simple_value")
    y = Typelib.from_ruby(f = ruby_form(t, v), t.rb)
    equal(y.to_simple_value, simple(t, v), "to_simple_value after conversion of #{PBT.short(f)}")
    check(x == y) { "the value built by assignments differs from the one converted from #{PBT.short(f)}" }
    seen(t, v, Typelib.to_ruby(x, t.rb), "to_ruby")
    nontrivial if t.kind == :compound
end
PBT.facet("history") do
    reg, pool = fresh
    t = root(pool)
    next if !t
    m = gen_value(t)
    note { "#{describe(t)}: #{m.inspect}" }
    x = typelib(t, m); n = 0; others = []
    every = pick([1, 2, 4])
    (3 + size(30)).times do |step|
        case weighted(12, 8, 2, 2, 1, 1)
        when 0 then write(t, x, m); n += 1
        when 1 then read(t, x, m)
        when 2 then note("dup"); others << [x, clone_model(m)]; x = x.dup
        when 4
            v = gen_value(t); note { "from_buffer of #{v.inspect}" }
            x.from_buffer(typelib(t, v).to_byte_array); m = v
        when 5
            next if t.holds?(:enum)   # 0 might not be one of its values
            note("zero!"); x.zero!; m = t.zero
        else
            note("copy"); y = t.rb.zero; Typelib.copy(y, x); others << [x, clone_model(m)]; x = y
        end
        observe(t, x, m) if step % every == 0
        others.each_with_index { |(o, om), i| equal(o.to_simple_value, simple(t, om), "value #{i} which was copied from") }
    end
    observe(t, x, m)
    nontrivial if n >= 4
end
PBT.facet("refused") do
    reg, pool = fresh
    t = root(pool)
    next if !t
    m = gen_value(t)
    x = typelib(t, m)
    range(1, 4).times do
        bad_write(t, x, m)
        equal(x.to_simple_value, simple(t, m), "to_simple_value after a refused assignment")
    end
end
PBT.facet("pointers") do
    reg, pool = fresh(range(1, 4))
    targets = []; kinds = {}
    pool.select! { |x| x.name != "/int8_t" && begin; kinds[x.name] = reg.build("#{x.name}*"); rescue Typelib::NotFound, ArgumentError; nil; end }
    int8 = M.new(:int, '/int8_t', 1); chars = reg.build('/char*'); kinds['/int8_t'] = chars
    # [model of what is pointed to, its Ruby value, its plain value]
    target = lambda do
        return nil if flip(1, 4)
        return pick(targets) if !targets.empty? && flip(1, 3)
        if pool.empty? || flip(1, 3)
            s = pick(["", "a", "hello", "with spaces \t", "x" * 300]); n = s.size + 1 + draw(4)
            y = reg.create_array('/int8_t', n).zero; Typelib::Type.from_string(y, s, true)
            targets << [int8, y, s]
        else
            t = pick(pool); m = gen_value(t); targets << [t, typelib(t, m), m]
        end
        targets.last[1].apply_changes_from_converted_types if targets.last[0] != int8
        targets.last
    end
    places = Array.new(range(1, 4)) { target.call }
    nontrivial if places.compact.size >= 2
    of = places.map { |x| x ? x[0] : pick(pool + [int8]) }
    array = of.uniq(&:name).size == 1 && flip
    bytes = places.map { |x| [x ? x[1].to_memory_ptr.zone_address : 0].pack('Q') }.join
    note { "#{array ? 'array' : 'compound'} of #{places.zip(of).map { |x, o| [o.name, x ? x[2] : nil] }.inspect}" }
    t = array ? reg.create_array(kinds.fetch(of[0].name), places.size) : reg.create_compound('/WithPointers') { |b| of.each_with_index { |o, i| b.add "p#{i}", kinds.fetch(o.name), 8 * i } }
    x = t.from_buffer(bytes, accept_pointers: true)
    address = ->(i) { bytes[8 * i, 8].unpack1('Q') }
    (3 + size(12)).times do
        i = draw(places.size); p = places[i]; k = array ? i : "p#{i}"
        case draw(6)
        when 0, 1, 2
            got = case draw(3)
                  when 0 then array ? x[i] : x.get(k)
                  when 1 then array ? x.to_a[i] : x.send(k)
                  else array ? x[i, 1][0] : x[k.to_sym]
                  end
            what = "pointer #{k} to #{of[i].name}"
            if !p then equal(got, nil, "null #{what}")
            elsif p[0] == int8 then equal(got, p[2], what)
            else
                check(got.kind_of?(kinds[of[i].name])) { "#{what} is #{PBT.short(got)}" }
                equal(got.to_byte_array(accept_pointers: true), [address[i]].pack('Q'), "address of the #{what}")
                v = got.deference
                equal(v.respond_to?(:to_simple_value) ? v.to_simple_value : v, simple(p[0], p[2]), "what the #{what} points to")
            end
        when 3
            raw = array ? x.raw_get(i) : x.raw_get(k)
            equal([raw.class.equal?(kinds[of[i].name]), raw.null?], [true, !p], "raw pointer #{k}")
            equal(raw.to_str, p && p[2], "to_str of the raw pointer #{k}") if of[i] == int8
        when 4   # what is pointed to changes
            next if !p
            if p[0] == int8 then s = pick(["", "z", p[2].reverse])[0, p[1].class.length - 1]; Typelib::Type.from_string(p[1], s, true); p[2] = s
            else m = gen_value(p[0]); y = typelib(p[0], m); y.apply_changes_from_converted_types; Typelib.copy(p[1], y); p[1].invalidate_changes_from_converted_types; p[2] = m
            end
        else
            bad = pick(["", "text", "x" * 40, 3, nil, [1], :a]); note { "#{k} <- #{bad.inspect}" }
            refused("assigning #{bad.inspect} to a pointer to #{of[i].name}", *C30::REFUSALS) { array ? x[i] = bad : pick([proc { x.set(k, bad) }, proc { x[k] = bad }, proc { x.send("#{k}=", bad) }]).call }
            refused("converting #{bad.inspect} to a pointer to #{of[i].name}", *C30::REFUSALS, Typelib::UnknownConversionRequested) { Typelib.from_ruby(bad, kinds[of[i].name]) }
        end
        x.apply_changes_from_converted_types if flip
        equal(x.to_byte_array(accept_pointers: true), bytes, "the pointers")
        PP.new(+"", 79).then { |q| x.pretty_print(q) } if flip(1, 4)
    end
end
module C30
    REFUSALS = [ArgumentError, TypeError, IndexError, RangeError, NoMethodError]
    # A Ruby object that cannot become a value of the type
    def bad_value(t)
        case t.kind
        when :int then return pick(["ab", "", nil, [1], {}, :a, 2**70]) if t.name == '/int8_t'
            t.size == 8 ? pick(["ab", nil, [1], {}, 2**64, -2**63 - 1, :a]) : pick(["ab", nil, [1], {}, :a, 2**70])
        when :float then pick(["a", nil, [1], {}, :a])
        when :bool then pick(["a", nil, [1], {}, :a])
        when :enum
            others = [12345, -77, 3].reject { |v| t[:symbols].has_value?(v) }
            pick([:nosuch, "nosuch", "", nil, [], 1.5] + others)
        when :string then pick([nil, {}, 5, :a])
        when :chars then pick([nil, {}, 5, "x" * t.size, "x" * (t.size + 3)])
        when :array then pick([nil, 5, gen_value(t) + [gen_value(t[:of])], gen_value(t)[1..-1], :a])
        when :vector then pick([nil, 5, :a, [Object.new]])
        when :compound then pick([nil, 5, "a", { 'nosuch' => 1 }, Array.new(t[:fields].size + 1) { 0 }])
        end
    end
    def bad_write(t, x, m)
        case t.kind
        when :compound
            n, _, ft = pick(t[:fields])
            if %i{compound array vector}.include?(ft.kind) && flip
                return bad_write(ft, x.raw_get(n), m[n])
            end
            case draw(6)
            when 0
                note("field nosuch")
                refused("reading an unknown field", *REFUSALS) { pick([proc { x['nosuch'] }, proc { x.get('nosuch') }, proc { x.raw_get('nosuch') }, proc { x.raw_get(:nosuch) }, proc { x.nosuch }]).call }
            when 1
                note("field nosuch =")
                refused("assigning an unknown field", *REFUSALS) { pick([proc { x['nosuch'] = 1 }, proc { x.set('nosuch', 1) }, proc { x.raw_set('nosuch', 1) }, proc { x.raw_set(:nosuch, 1) }, proc { x.nosuch = 1 }]).call }
            else
                v = bad_value(ft); note { "#{t.name}.#{n} <- #{v.inspect}" }
                refused("assigning #{v.inspect} to #{ft.name}", *REFUSALS) { flip ? x.set(n, v) : x[n.to_sym] = v }
            end
        else
            of = t[:of]
            if !m.empty? && %i{compound array vector}.include?(of.kind) && flip
                i = draw(m.size)
                return bad_write(of, x.raw_get(i), m[i])
            end
            i = pick([m.size, m.size + 1, 1000, -1, -2])
            if m.empty? || flip(1, 3)
                note { "#{t.name}[#{i}] of #{m.size}" }
                ok = element_form(of, gen_value(of))
                pick([proc { refused("[#{i}] of #{m.size}", *REFUSALS) { x[i] } }, proc { refused("raw_get(#{i}) of #{m.size}", *REFUSALS) { x.raw_get(i) } },
                      proc { refused("[#{i}]= of #{m.size}", *REFUSALS) { x[i] = ok } }, proc { refused("raw_set(#{i}) of #{m.size}", *REFUSALS) { x.raw_set(i, ok) } }]).call
            else
                i = draw(m.size); v = bad_value(of)
                note { "#{t.name}[#{i}] <- #{v.inspect}" }
                refused("assigning #{v.inspect} to an element of #{t.name}", *REFUSALS) { t.kind == :vector && flip ? x.push(v) : x[i] = v }
            end
        end
    end
end
# The ways of making a value
PBT.facet("create") do
    reg, pool = fresh(range(1, 5))
    extra = [M.new(:bool, '/bool', 1), M.new(:int, '/int32_t', 4, signed: true), M.new(:float, '/double', 8)].each { |y| y.rb = reg.get(y.name) }
    t = pick(pool.last(3) + extra.select { flip(1, 4) })
    m = gen_value(t); note { "#{describe(t)} <- #{m.inspect}" }
    nontrivial if t.kind == :compound
    # The value a fresh one has at a place; true when it has to be that value whatever the memory was
    fresh_ok = lambda do |ty, v, how, zeroed|
        case ty.kind
        when :compound then ty[:fields].all? { |n, _, ft| fresh_ok[ft, v[n], how, zeroed] }
        when :array then v.size == ty[:n] && v.all? { |x| fresh_ok[ty[:of], x, how, zeroed] }
        when :vector, :string then v.size == 0
        when :enum then ty[:symbols].key?(v.to_s)
        when :chars then !zeroed || v == "" || (v.respond_to?(:all?) && v.all? { |x| x == 0 })
        else !zeroed || v == 0 || v == false
        end
    end
    simple_of = ->(x) { x.kind_of?(Typelib::Type) ? x.to_simple_value : x }
    begin
        case how = draw(7)
        when 0
            x = t.rb.new(f = ruby_form(t, m)); equal(x.to_simple_value, simple(t, m), "new(#{PBT.short(f)})")
        when 1
            z = flip; x = t.rb.create(init: f = ruby_form(t, m), zero: z); equal(x.to_simple_value, simple(t, m), "create(init: #{PBT.short(f)}, zero: #{z})")
        when 2, 3
            all = flip; Typelib.zero_all_values = all
            # memory that is reused is not clean
            10.times { gen = typelib(t, m); gen.to_memory_ptr }
            GC.start if flip(1, 20)
            x, zeroed, what = case draw(4)
                              when 0 then [t.rb.zero, true, 'zero']
                              when 1 then [t.rb.new, all, "new with zero_all_values #{all}"]
                              when 2 then [t.rb.create(zero: true), true, 'create(zero: true)']
                              else [t.rb.create, all, "create with zero_all_values #{all}"]
                              end
            next if t.holds?(:bool) && !zeroed
            v = simple_of[x]
            check(fresh_ok[t, v, what, zeroed]) { "#{what} gives #{PBT.short(v)}" }
            if zeroed # padding included
                y = t.rb.zero
                equal(x.to_byte_array(merge_skip_copy: true, remove_trailing_skips: false), y.to_byte_array(merge_skip_copy: true, remove_trailing_skips: false), "bytes of #{what}")
            end
        when 4
            own = typelib(t, m); own.apply_changes_from_converted_types
            x = flip ? t.rb.from_address(own.zone_address) : t.rb.from_ffi(Struct.new(:address).new(own.zone_address))
            equal(x.zone_address, own.zone_address, "address of the value given by its address")
            equal(x.to_simple_value, simple(t, m), "value given by its address")
            m2 = gen_value(t); y = typelib(t, m2); y.apply_changes_from_converted_types
            own.invalidate_changes_from_converted_types
            Typelib.copy(x, y); x.invalidate_changes_from_converted_types
            equal(own.to_simple_value, simple(t, m2), "value after it was changed by its address")
            x = nil; GC.start if flip(1, 20)
            equal(own.to_simple_value, simple(t, m2), "value after the one made from its address is dropped")
        when 5
            own = typelib(t, m); own.apply_changes_from_converted_types
            x = t.rb.wrap(own.to_byte_array); equal(x.to_simple_value, simple(t, m), "wrap of bytes")
            x = t.rb.wrap(own.to_memory_ptr); equal(x.to_simple_value, simple(t, m), "wrap of memory")
            equal(x.zone_address, own.zone_address, "address of wrapped memory")
            bad = pick([nil, 5, :a, [], own]); refused("wrap of #{bad.class}", ArgumentError) { t.rb.wrap(bad) }
        else
            bad = bad_value(t)
            next if bad.nil?
            refused("new(#{bad.inspect})", *C30::REFUSALS, Typelib::UnknownConversionRequested) { flip ? t.rb.new(bad) : t.rb.create(init: bad) }
        end
    ensure
        Typelib.zero_all_values = false
    end
end
# std::string values that are not converted
PBT.facet("strings") do
    reg = Typelib::Registry.new(false); Typelib::Registry.add_standard_cxx_types(reg)
    st = reg.get('/std/string'); text = -> { pick(["", "a", "hello", "b\0c", "\u9999 \u12b5", "x" * 40, "aabb"]).b }
    m = text[]; other = text[]
    if flip
        s = flip ? st.new(m.dup) : st.new; s.concat(m.dup) if s.size == 0
        keep = s
    else # held by a compound, next to another one
        keep = reg.create_compound('/S') { |b| b.add 's', st; b.add 't', st, 32 }.new(s: m.dup, t: other.dup); s = keep.raw_get('s')
    end
    note { m.inspect }; n = 0; chars = []
    (2 + size(20)).times do
        i = -1
        s.raw_each { |c| i += 1; chars << [i, c] if flip(1, 3) } if flip(1, 3) && m.size < 20
        case op = draw(12)
        when 11 then next if keep.equal?(s); v = text[]; note { "copy of the whole value, #{v.inspect}" }; Typelib.copy(keep, keep.class.new(s: v.dup, t: other.dup)); m = v.dup
        when 0 then v = text[]; note { "concat #{v.inspect}" }; s.concat(flip ? v.dup : st.new(v.dup)); m += v
        when 1 then v = text[].bytes; note { "concat #{v}" }; s.concat(v.map { |x| x > 127 ? x - 256 : x }); m += v.pack('C*')
        when 2 then v = draw(128); v = v.chr if flip; note { "push #{v.inspect}" }; (s.respond_to?(:<<) && flip) ? s << v : s.push(v); m += v.kind_of?(Integer) ? v.chr : v
        when 3
            v = m.empty? || flip(1, 4) ? draw(128) : m.getbyte(draw(m.size)); note { "erase #{v}" }
            s.erase(v > 127 ? v - 256 : v)
            i = m.bytes.index(v); m = i ? m[0, i] + m[i + 1..-1] : m
        when 4 then v = draw(3); note("delete_if #{v}"); s.delete_if { |x| x % 3 == v }; m = m.bytes.map { |x| x > 127 ? x - 256 : x }.reject { |x| x % 3 == v }.pack('c*')
        when 5 then flip(1, 3) and (note("clear"); s.clear; m = "".b)
        when 6 then equal(s.each.to_a, m.unpack('c*'), "each")
        when 7 then equal(s.raw_each.map(&:to_ruby), m.unpack('c*'), "raw_each")
        when 8 then v = text[]; note { "copy #{v.inspect}" }; Typelib.copy(s, st.new(v.dup)); m = v.dup
        when 9 then d = s.dup; s.concat("more"); equal(d.to_str.b, m, "a copy"); m += "more"
        else
            equal([s.size, s.length, s.empty?], [m.size, m.size, m.empty?], "size, length and empty?")
            equal(s.include?(97), m.include?("a"), "include?(97)")
            v = flip ? m : text[]; equal(s == st.new(v.dup), m == v, "comparison with #{v.inspect}")
        end
        n += 1
        equal(s.to_str.b, m, "to_str"); equal(Typelib.to_ruby(s).b, m, "to_ruby"); equal(s.to_simple_value.b, m, "to_simple_value")
        equal(s.to_byte_array, [m.size].pack('Q') + m, "to_byte_array")
        equal(keep.get('t').b, other, "the string next to it") if !keep.equal?(s)
        chars.reject! { |_, c| c.invalidated? }
        chars.each do |k, c|
            check(k < m.size) { "the wrapper of character #{k} is still valid, there are #{m.size} of them" }
            equal(c.to_ruby, m[k].unpack1('c'), "wrapper of character #{k}")
        end
    end
    nontrivial if n >= 4
    s.freeze; bad = pick([proc { s.concat("x") }, proc { s.push(3) }, proc { s.clear }, proc { s.erase(97) }, proc { s.delete_if { true } }])
    refused("a change to a frozen string", TypeError, RuntimeError) { bad.call } 
    equal(s.to_str.b, m, "to_str of the frozen string")
end
