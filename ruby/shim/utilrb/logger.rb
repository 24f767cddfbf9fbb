require 'logger'
class Logger
  # Minimal stand-in for utilrb's logger hierarchy
  def self.Root(name, level)
    l = Logger.new(STDERR); l.level = level
    Module.new do
      define_method(:logger) { l }
      %w[debug info warn error fatal unknown].each { |n| define_method(n) { |*a, &b| l.send(n, *a, &b) } }
    end
  end
end
