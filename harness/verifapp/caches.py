from django_cache_dependencies import registry

from .models import Auto

registry.register((
    (Auto, lambda obj: 'Auto.cat:%s' % obj.cat, 'pages'),
    (Auto, lambda **kw: ('Auto.title:' + kw['instance'].title, 'Auto')),
))
