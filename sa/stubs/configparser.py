"""An analysis-only model of configparser.

The scenario says which files there are: _files[name] = {section: {option:
value}}.
"""

_files = {}
_read = []


class Error(Exception):
    pass


class NoSectionError(Error):
    pass


class NoOptionError(Error):
    pass


class RawConfigParser(object):

    def __init__(self, defaults=None, **settings):
        self._sections = {}
        self._defaults = defaults

    def optionxform(self, option):
        return option.lower()

    def read(self, filenames, encoding=None):
        if isinstance(filenames, str):
            filenames = [filenames]
        done = []
        for name in filenames:
            _read.append(name)
            if name not in _files:
                continue
            for section, options in _files[name].items():
                known = self._sections.setdefault(section, {})
                for option, value in options.items():
                    known[self.optionxform(option)] = value
            done.append(name)
        return done

    def sections(self):
        return list(self._sections)

    def has_section(self, section):
        return section in self._sections

    def has_option(self, section, option):
        return section in self._sections and \
            self.optionxform(option) in self._sections[section]

    def options(self, section):
        if section not in self._sections:
            raise NoSectionError(section)
        return list(self._sections[section])

    def items(self, section):
        if section not in self._sections:
            raise NoSectionError(section)
        return list(self._sections[section].items())

    def get(self, section, option, **options):
        if section not in self._sections:
            if 'fallback' in options:
                return options['fallback']
            raise NoSectionError(section)
        known = self._sections[section]
        option = self.optionxform(option)
        if option not in known and self._defaults is not None and \
                option in self._defaults:
            return self._defaults[option]
        if option not in known:
            if 'fallback' in options:
                return options['fallback']
            raise NoOptionError(option, section)
        return known[option]

    def _get(self, conv, section, option, options):
        if 'fallback' in options and not self.has_option(section, option):
            return options['fallback']
        return conv(self.get(section, option))

    def getint(self, section, option, **options):
        return self._get(int, section, option, options)

    def getfloat(self, section, option, **options):
        return self._get(float, section, option, options)

    def getboolean(self, section, option, **options):
        return self._get(_boolean, section, option, options)


def _boolean(value):
    value = value.lower()
    if value in ('1', 'yes', 'true', 'on'):
        return True
    if value in ('0', 'no', 'false', 'off'):
        return False
    raise ValueError('Not a boolean')


class ConfigParser(RawConfigParser):
    pass


class SafeConfigParser(ConfigParser):
    pass
