HEAD='''import io, logging
logging.disable(logging.CRITICAL)
from munidata import UnicodeDataVersionManager
import os
def db():
    for v in ('74','76','72','70'):
        d='/usr/lib/x86_64-linux-gnu/libicu%s.so.'+v
        if os.path.exists(d % 'uc'):
            return UnicodeDataVersionManager().register(None, d % 'uc', d % 'i18n', v)
from lgr.core import LGR
from lgr.parser.xml_parser import XMLParser
from lgr.parser.xml_serializer import serialize_lgr_xml
def parse(data, rules='', meta='', force=True):
    p = XMLParser(io.BytesIO(('<lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0"><meta>%s</meta><data>%s</data><rules>%s</rules></lgr>' % (meta, data, rules)).encode()), 'demo', force=force)
    p.unicode_database = db()
    return p.parse_document()
'''
