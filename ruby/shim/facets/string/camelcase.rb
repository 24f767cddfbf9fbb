class String
  def camelcase(*separators)
    case separators.first
    when Symbol, TrueClass, FalseClass, NilClass then first_letter = separators.shift
    end
    separators = ['_', '\s'] if separators.empty?
    str = dup
    separators.each { |s| str = str.gsub(/(?:#{s}+)([a-z])/) { $1.upcase } }
    case first_letter
    when :upper, true then str = str.gsub(/(\A|\s)([a-z])/) { $1 + $2.upcase }
    when :lower, false then str = str.gsub(/(\A|\s)([A-Z])/) { $1 + $2.downcase }
    end
    str
  end
end
