# Ruby side of the engine (lib/rubyhost.cc): choices come from PBT.draw.
require 'typelib'
module PBT
    class Fail < StandardError; end
    class Known < StandardError; end
    FACETS = Hash.new
    def self.facet(name, &block); FACETS[name] = block end
    def self.run_facet(name)
        GC.disable
        DSL.new.instance_eval(&FACETS.fetch(name))
        nil
    rescue Known => e
        e.message.dup
    ensure
        GC.enable
        @count = (@count || 0) + 1
        GC.start if @count % 20 == 0
    end
    def self.describe(e)
        return e.message.dup if e.kind_of?(Fail)
        bt = (e.backtrace || []).map { |l| l.sub(%r{.*/(bindings/ruby|props|ruby)/}, '') }
        "unexpected #{e.class}: #{e.message} at #{bt.first(6).join(' < ')}"
    end
    class DSL
        def draw(n) PBT.draw(n) end
        def draw64; PBT.draw64 end
        def size(n) PBT.size(n) end
        def flip(num = 1, den = 2) PBT.draw(den) >= den - num end
        def range(lo, hi) lo + PBT.draw(hi - lo + 1) end
        def pick(a) a[PBT.draw(a.size)] end
        def weighted(*w)
            v = PBT.draw(w.inject(:+))
            w.each_with_index { |x, i| return i if v < x; v -= x }
            w.size - 1
        end
        def label(l) PBT.label_(l.to_s) end
        def note(l = nil) PBT.note_((block_given? ? yield : l).to_s) if PBT.verbose? end
        def nontrivial; PBT.nontrivial end
        def fail!(msg) raise PBT::Fail, msg end
        def check(cond, msg = nil)
            raise PBT::Fail, (block_given? ? yield : msg).to_s if !cond
        end
        def equal(got, want, what)
            raise PBT::Fail, "#{what}: got #{PBT.short(got)}, expected #{PBT.short(want)}" if !(got == want)
        end
        # Runs the block, which must raise one of the given classes
        def refused(what, *classes)
            begin r = yield
            rescue PBT::Fail, PBT::Known then raise
            rescue *classes then return $!
            end
            raise PBT::Fail, "#{what} is accepted and gives #{PBT.short(r)}"
        end
    end
    def self.short(x) s = x.inspect; s.size > 400 ? s[0, 400] + "..." : s end
end
