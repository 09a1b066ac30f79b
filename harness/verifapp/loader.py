from django.template import Origin, TemplateDoesNotExist
from django.template.loaders.base import Loader as BaseLoader

TEMPLATES = {}


class DictLoader(BaseLoader):
    def get_template_sources(self, template_name):
        yield Origin(name=template_name, template_name=template_name, loader=self)

    def get_contents(self, origin):
        try:
            return TEMPLATES[origin.name]
        except KeyError:
            raise TemplateDoesNotExist(origin)
