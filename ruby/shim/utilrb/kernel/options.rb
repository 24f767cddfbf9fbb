module Kernel
  def self.normalize_options(o); o.each_with_object({}) { |(k, v), h| h[k.to_sym] = v } end
  # [known, unknown]; a default of nil leaves the option unset
  def self.filter_options(options, *user)
    options = normalize_options(options)
    known = {}
    user.flatten.each { |u| u.is_a?(Hash) ? known.update(normalize_options(u)) : known[u.to_sym] = nil }
    good, bad = {}, {}
    options.each { |k, v| (known.key?(k) ? good : bad)[k] = v }
    known.each { |k, v| good[k] = v if !good.key?(k) && !v.nil? }
    [good, bad]
  end
  def self.validate_options(options, *known)
    options = {} if options.nil?
    good, bad = filter_options(options, *known)
    raise ArgumentError, "unknown options #{bad.keys.inspect}" unless bad.empty?
    good
  end
end
