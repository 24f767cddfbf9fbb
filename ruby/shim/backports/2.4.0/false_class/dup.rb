# nothing to do: these classes can be dup'ed since Ruby 2.4
